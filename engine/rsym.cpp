// rsym: symbolic execution of LLVM bitcode with floating point interpreted as exact
// real arithmetic.  Every double is a rational function over the symbolic inputs;
// every branch on reals is decided by an SMT solver (z3) over the path condition.
#include "poly.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <z3++.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <unistd.h>
#include <fstream>
#include <iostream>
#include <sstream>
using namespace llvm;

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ------------------------------------------------------------------ values
struct Node { int rc = 0; virtual ~Node() {} };
template <class T> struct IP {
  T *p = nullptr;
  IP() {}
  IP(T *q) : p(q) { if (p) p->rc++; }
  IP(const IP &o) : p(o.p) { if (p) p->rc++; }
  IP(IP &&o) : p(o.p) { o.p = nullptr; }
  template <class U> explicit IP(const IP<U> &o) : p(static_cast<T *>(o.p)) { if (p) p->rc++; }
  ~IP() { if (p && --p->rc == 0) delete p; }
  IP &operator=(const IP &o) { if (o.p) o.p->rc++; T *old = p; p = o.p; if (old && --old->rc == 0) delete old; return *this; }
  IP &operator=(IP &&o) { std::swap(p, o.p); return *this; }
  T *operator->() const { return p; }
  T &operator*() const { return *p; }
  explicit operator bool() const { return p; }
};
struct Real;
struct BoolE;
typedef IP<Real> RealRef;
typedef IP<BoolE> BoolRef;
enum { MN = 1, MZ = 2, MP = 4 };
enum Pred { LT, LE, GT, GE, EQ, NE };
struct BoolE : Node {
  enum K { CONST, ATOM, AND, OR, CMP } k;
  bool c = false;
  int atom = -1, mask = 0;
  std::vector<BoolRef> ch;
  Pred pred = LT;
  RealRef L, R;     // CMP provenance
  bool neg = false; // CMP negated
  BoolRef ex;       // expansion of CMP
  int z3id = -1, z3idn = -1;
};
struct Real : Node {
  enum K { RFK, MIN, MAX, ITE } k = RFK;
  RF rf;
  std::vector<RealRef> ops;
  BoolRef cond;
};
static RealRef mkRF(RF &&r) { Real *x = new Real; x->rf = std::move(r); return RealRef(x); }
static RealRef mkRF(const RF &r) { Real *x = new Real; x->rf = r; return RealRef(x); }
static RealRef mkQ(const Q &q) { return mkRF(rfConst(q)); }
static BoolRef mkConst(bool b) { BoolE *e = new BoolE; e->k = BoolE::CONST; e->c = b; return BoolRef(e); }
static BoolRef mkAtom(int a, int mask) {
  if (mask == 0) return mkConst(false);
  if (mask == 7) return mkConst(true);
  BoolE *e = new BoolE; e->k = BoolE::ATOM; e->atom = a; e->mask = mask; return BoolRef(e);
}
static BoolRef mkNary(BoolE::K k, std::vector<BoolRef> v) {
  bool unit = (k == BoolE::AND);
  std::vector<BoolRef> o;
  for (auto &x : v) {
    if (x->k == BoolE::CONST) { if (x->c != unit) return mkConst(!unit); continue; }
    o.push_back(x);
  }
  if (o.empty()) return mkConst(unit);
  if (o.size() == 1) return o[0];
  BoolE *e = new BoolE; e->k = k; e->ch = o; return BoolRef(e);
}
static BoolRef mkNot(const BoolRef &b) {
  switch (b->k) {
    case BoolE::CONST: return mkConst(!b->c);
    case BoolE::ATOM: return mkAtom(b->atom, 7 & ~b->mask);
    case BoolE::AND: case BoolE::OR: {
      std::vector<BoolRef> v;
      for (auto &x : b->ch) v.push_back(mkNot(x));
      return mkNary(b->k == BoolE::AND ? BoolE::OR : BoolE::AND, v);
    }
    case BoolE::CMP: {
      BoolE *e = new BoolE; e->k = BoolE::CMP; e->pred = b->pred; e->L = b->L; e->R = b->R; e->neg = !b->neg;
      return BoolRef(e);
    }
  }
  return b;
}
struct Val;
struct Agg : Node { std::vector<Val> v; };
struct Val {
  enum K : uint8_t { UNDEF, INT, REAL, COND, AGG, SINT } k = UNDEF;
  uint64_t i = 0;
  IP<Node> n;
  static Val I(uint64_t x) { Val v; v.k = INT; v.i = x; return v; }
  static Val R(const RealRef &r) { Val v; v.k = REAL; v.n = IP<Node>(r.p); return v; }
  static Val SI(const RealRef &r) { Val v; v.k = SINT; v.n = IP<Node>(r.p); return v; }
  static Val B(const BoolRef &b) {
    if (b->k == BoolE::CONST) return I(b->c);
    Val v; v.k = COND; v.n = IP<Node>(b.p); return v;
  }
  RealRef real() const { return RealRef(static_cast<Real *>(n.p)); }
  BoolRef cond() const { return BoolRef(static_cast<BoolE *>(n.p)); }
};

// ------------------------------------------------------------------ memory
struct Obj {
  uint64_t size = 0;
  std::vector<uint8_t> data, st;  // st: 0 uninit 1 bytes 2 real
  std::vector<RealRef> slot;      // per 4 bytes
  std::vector<uint8_t> span;
  bool heap = false, constant = false;
  std::string name;
};
typedef std::shared_ptr<Obj> ObjP;
static const uint64_t BIAS = 0x40000000ull;
static uint64_t mkptr(uint32_t id, int64_t off) { return ((uint64_t)id << 32) + BIAS + off; }

// ------------------------------------------------------------------ program
struct Opnd { int reg = -1; Val c; };
struct DInst {
  const Instruction *I;
  unsigned op;
  int dst = -1;
  std::vector<Opnd> ops;
  std::vector<std::pair<int64_t, int>> gep;  // (scale, operand idx); const part in aux
  int64_t aux = 0;
  unsigned width = 0;
  bool isReal = false;
};
struct DBlock { std::vector<DInst> ins; unsigned nphi = 0; const BasicBlock *bb; };
struct FnInfo {
  const Function *F;
  std::unordered_map<const Value *, int> slot;
  std::unordered_map<const BasicBlock *, int> bidx;
  std::vector<DBlock> blocks;
  int nregs = 0;
  bool repo = false;
  uint64_t count = 0;
};
struct Frame {
  FnInfo *fn;
  std::vector<Val> regs;
  int bb = 0, prev = -1;
  unsigned pc = 0;
  std::vector<uint32_t> allocas;
  int retReg = -1;
};
struct InputRec { char kind; std::string name; int var; int64_t ival; };
struct State {
  std::vector<Frame> fr;
  std::vector<ObjP> objs;
  std::unordered_map<int, int> signs;  // atom -> possible mask
  std::vector<BoolRef> pc;
  std::vector<InputRec> inputs;
  std::vector<std::pair<unsigned, Poly>> subst;
  int64_t choice = -1;
  std::map<unsigned, int64_t> ival;  // symbolic integers that have one value on this path
  bool cut = false;  // a wild integer was represented by one value
  uint64_t steps = 0;
  int forks = 0;
};
typedef std::unique_ptr<State> StateP;

struct Retry {};
struct SpecAbort {};
struct PathEnd { std::string why; };
struct Unsupported { std::string what; };
struct Violation { std::string kind, msg; BoolRef extra; };

// ------------------------------------------------------------------ engine
struct Engine {
  LLVMContext ctx;
  std::unique_ptr<Module> M;
  const DataLayout *DL = nullptr;
  std::map<std::string, int64_t> params;
  std::unordered_map<const Function *, std::unique_ptr<FnInfo>> fns;
  std::unordered_map<const GlobalVariable *, uint32_t> gid;
  std::vector<const Function *> fptr;
  std::unordered_map<const Function *, uint32_t> fpid;
  std::set<std::string> harnessFns;

  z3::context z;
  z3::solver *S = nullptr;
  int depth = 0;
  std::vector<std::pair<z3::expr, int>> lemmas;
  std::vector<z3::expr> zcache;
  std::unordered_map<MonoId, int> monoZ;          // abstraction var (index in zcache)
  std::unordered_map<int, int> atomZ, atomNL;
  std::vector<z3::expr> varNL;

  State *st = nullptr;
  bool spec = false;
  struct SpecStore { uint64_t addr; unsigned sz; Val v; bool real; };
  std::vector<SpecStore> specStores;
  struct Pend { StateP s; BoolRef c; int depth; };
  std::vector<Pend> pend;

  // stats
  uint64_t nq = 0, nqNL = 0, npaths = 0, nasserts = 0, nassertZ3 = 0, nforks = 0, ninfeas = 0, ntotal = 0, nincon = 0;
  double tq = 0, tNL = 0;
  bool witness = false, sawNonlinear = false;
  double tlimit = 600, t0 = 0;
  uint64_t maxSteps = 40000000, maxPaths = 1000000000ull;
  std::map<std::string, uint64_t> reach;
  std::map<std::string, uint64_t> assertSites;
  struct VRec { std::string kind, msg, where; std::vector<std::pair<InputRec, std::string>> in; std::string status; std::vector<std::vector<std::string>> alts; };
  std::vector<VRec> viols;
  std::vector<VRec> cands; // models of paths that could not be followed to their end
  uint64_t ncut = 0, nextCand = 1;
  int maxViol = 3;
  std::string endStatus = "complete";
  std::set<std::string> violKeys;
  std::string note;

  // ---------------------------------------------------------------- z3 helpers
  z3::expr zq(const Q &q) { return z.real_val(q.get_str().c_str()); }
  void addLemma(const z3::expr &e) { S->add(e); lemmas.push_back({e, depth}); }
  z3::expr zmono(MonoId m) {
    auto it = monoZ.find(m);
    if (it != monoZ.end()) return zcache[it->second];
    std::string nm = "m" + std::to_string(m);
    bool isInt = MT.v[m].size() == 1 && MT.v[m][0].second == 1 && VARS[MT.v[m][0].first].isInt;
    z3::expr e = isInt ? z3::to_real(z.int_const(nm.c_str())) : z.real_const(nm.c_str());
    monoZ[m] = zcache.size();
    zcache.push_back(e);
    const MonoV &v = MT.v[m];
    if (v.size() == 1 && v[0].second == 1) {
      if (VARS[v[0].first].kind == 1) addLemma(e >= 0);
      if (VARS[v[0].first].kind >= 2) addLemma(e >= -1 && e <= 1);
    } else {
      bool even = true, nn = true;
      for (auto &p : v) { if (p.second % 2) even = false; if (p.second % 2 && VARS[p.first].kind != 1) nn = false; }
      if (even || nn) addLemma(e >= 0);
    }
    return e;
  }
  z3::expr zpoly(const Poly &p) {
    if (p.zero()) return z.real_val(0);
    z3::expr_vector v(z);
    for (auto &t : p.t) {
      if (t.m == 0) v.push_back(zq(t.c));
      else { z3::expr m = zmono(t.m); v.push_back(t.c == 1 ? m : zq(t.c) * m); }
    }
    return v.size() == 1 ? v[0] : z3::sum(v);
  }
  z3::expr zatom(int a) {
    auto it = atomZ.find(a);
    if (it != atomZ.end()) return zcache[it->second];
    z3::expr e = zpoly(AT.p[a]);
    atomZ[a] = zcache.size();
    zcache.push_back(e);
    return e;
  }
  z3::expr zvarNL(unsigned v) { if (VARS[v].isInt) return z3::to_real(z.int_const(("v" + std::to_string(v)).c_str())); return z.real_const(("v" + std::to_string(v)).c_str()); }
  z3::expr zpolyNL(const Poly &p) {
    if (p.zero()) return z.real_val(0);
    z3::expr_vector v(z);
    for (auto &t : p.t) {
      z3::expr e = zq(t.c);
      for (auto &f : MT.v[t.m]) for (int k = 0; k < f.second; k++) e = e * zvarNL(f.first);
      v.push_back(e);
    }
    return z3::sum(v);
  }
  z3::expr zatomNL(int a) {
    auto it = atomNL.find(a);
    if (it != atomNL.end()) return zcache[it->second];
    z3::expr e = zpolyNL(AT.p[a]);
    atomNL[a] = zcache.size();
    zcache.push_back(e);
    return e;
  }
  static z3::expr rel(z3::context &z, const z3::expr &e, int mask, const z3::expr &zero) {
    switch (mask) {
      case MN: return e < zero;
      case MZ: return e == zero;
      case MP: return e > zero;
      case MN | MZ: return e <= zero;
      case MZ | MP: return e >= zero;
      case MN | MP: return e != zero;
    }
    return z.bool_val(mask == 7);
  }
  z3::expr zbool(const BoolRef &b) {
    if (b->z3id >= 0) return zcache[b->z3id];
    z3::expr r(z);
    switch (b->k) {
      case BoolE::CONST: r = z.bool_val(b->c); break;
      case BoolE::ATOM: r = rel(z, zatom(b->atom), b->mask, z.real_val(0)); break;
      case BoolE::AND: case BoolE::OR: {
        z3::expr_vector v(z);
        for (auto &x : b->ch) v.push_back(zbool(x));
        r = b->k == BoolE::AND ? z3::mk_and(v) : z3::mk_or(v);
        break;
      }
      case BoolE::CMP: r = zbool(expand(b)); break;
    }
    b->z3id = zcache.size();
    zcache.push_back(r);
    return r;
  }
  // nonlinear form with optional margins / interior
  z3::expr zboolNL(const BoolRef &b, const Q &marg, bool interior) {
    switch (b->k) {
      case BoolE::CONST: return z.bool_val(b->c);
      case BoolE::ATOM: {
        z3::expr e = zatomNL(b->atom);
        int m = b->mask;
        if (interior && m == (MZ | MP)) m = MP;
        if (interior && m == (MZ | MN)) m = MN;
        if (marg != 0) {
          if (m == MP) return e >= zq(marg);
          if (m == MN) return e <= zq(-marg);
          if (m == (MN | MP)) return e >= zq(marg) || e <= zq(-marg);
        }
        return rel(z, e, m, z.real_val(0));
      }
      case BoolE::AND: case BoolE::OR: {
        z3::expr_vector v(z);
        for (auto &x : b->ch) v.push_back(zboolNL(x, marg, interior));
        return b->k == BoolE::AND ? z3::mk_and(v) : z3::mk_or(v);
      }
      case BoolE::CMP: return zboolNL(expand(b), marg, interior);
    }
    return z.bool_val(true);
  }
  z3::check_result check(const z3::expr &e) {
    double t = now();
    S->push();
    S->add(e);
    z3::check_result r = S->check();
    S->pop();
    relemma();
    tq += now() - t;
    nq++;
    return r;
  }
  void relemma() {
    for (size_t i = lemmas.size(); i-- > 0;) {
      if (lemmas[i].second > depth) { S->add(lemmas[i].first); lemmas[i].second = depth; }
    }
  }
  void popTo(int d) {
    if (depth > d) { S->pop(depth - d); depth = d; relemma(); }
  }

  // ---------------------------------------------------------------- signs
  int maskOf(int atom) {
    auto it = st->signs.find(atom);
    return it == st->signs.end() ? 7 : it->second;
  }
  static int mulMask(int a, int b) {
    int r = 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
      if ((a >> i & 1) && (b >> j & 1)) { int s = (i - 1) * (j - 1); r |= 1 << (s + 1); }
    return r;
  }
  static int addMask(int a, int b) {
    int r = 0;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++)
      if ((a >> i & 1) && (b >> j & 1)) {
        if (i == 1) r |= 1 << j;
        else if (j == 1) r |= 1 << i;
        else if (i == j) r |= 1 << i;
        else r |= 7;
      }
    return r;
  }
  static int flipMask(int m) { return (m & MZ) | ((m & MN) ? MP : 0) | ((m & MP) ? MN : 0); }
  int varMask(unsigned v) {
    int m = maskOf(AT.intern(Poly::var(v)));
    if (VARS[v].kind == 1) {
      m &= MZ | MP;
      const Poly &rad = VARS[v].rule;  // a root is zero exactly where its radicand is
      if ((m & MZ) && !rad.zero()) {
        if (rad.isConst()) m &= ~MZ;
        else { Q c; if (!(maskOf(atomize(rad, c)) & MZ)) m &= ~MZ; }
      }
    }
    return m;
  }
  int monoMask(MonoId m) {
    int r = MP;
    for (auto &p : MT.v[m]) {
      int vm = varMask(p.first);
      if (p.second % 2 == 0) vm = ((vm & (MN | MP)) ? MP : 0) | (vm & MZ);
      r = mulMask(r, vm);
    }
    return r;
  }
  int structMask(int atom) {
    const Poly &p = AT.p[atom];
    int r = MZ;
    if (p.t.size() > 12) return 7;
    for (auto &t : p.t) {
      int m = monoMask(t.m);
      if (t.c < 0) m = flipMask(m);
      r = addMask(r, m);
      if (r == 7) return 7;
    }
    return r;
  }
  // definite sign if known by table/structure (no solver): returns mask
  int quickMask(int atom) {
    int m = maskOf(atom);
    if (m == MN || m == MZ || m == MP) return m;
    int s = structMask(atom);
    if ((m & s) != m) { m &= s; st->signs[atom] = m; }
    return m;
  }
  // decide mask via solver for each remaining option
  int solveMask(int atom) {
    int m = quickMask(atom);
    if (m == MN || m == MZ || m == MP) return m;
    int r = 0;
    for (int s : {MN, MZ, MP})
      if (m & s) if (check(rel(z, zatom(atom), s, z.real_val(0))) != z3::unsat) r |= s;
    st->signs[atom] = r;
    return r;
  }
  int denSign(const Den &d) {
    int s = 1;
    for (auto &f : d) {
      if (f.second % 2 == 0) continue;
      int m = quickMask(f.first);
      if (m == MN) s = -s;
      else if (m != MP) {
        m = solveMask(f.first);
        if (m == MN) s = -s;
        else if (m != MP) {
          // decide by forking
          forkOn(mkAtom(f.first, MP));
        }
      }
    }
    return s;
  }

  // ---------------------------------------------------------------- comparisons
  static Pred swapP(Pred p) { switch (p) { case LT: return GT; case LE: return GE; case GT: return LT; case GE: return LE; default: return p; } }
  static Pred notP(Pred p) { switch (p) { case LT: return GE; case LE: return GT; case GT: return LE; case GE: return LT; case EQ: return NE; default: return EQ; } }
  static int predMask(Pred p) { switch (p) { case LT: return MN; case LE: return MN | MZ; case GT: return MP; case GE: return MP | MZ; case EQ: return MZ; default: return MN | MP; } }
  BoolRef signRel(const RF &d, Pred p) {
    int mask = predMask(p);
    if (d.num.zero()) return mkConst(mask & MZ);
    int s = denSign(d.den);
    Q c;
    if (d.num.isConst()) {
      int sg = (d.num.constVal() > 0 ? 1 : -1) * s;
      return mkConst(mask & (sg > 0 ? MP : MN));
    }
    int a = atomize(d.num, c);
    if ((c > 0 ? 1 : -1) * s < 0) mask = flipMask(mask);
    return mkAtom(a, mask);
  }
  BoolRef cmpExpand(Pred p, const RealRef &L, const RealRef &R) {
    if (L->k == Real::RFK && R->k == Real::RFK) return signRel(rfAdd(L->rf, R->rf, -1), p);
    if (L->k == Real::RFK) return cmpExpand(swapP(p), R, L);
    if (L->k == Real::ITE) {
      BoolRef c = L->cond, n = mkNot(c);
      return mkNary(BoolE::OR, {mkNary(BoolE::AND, {expand(c), cmpExpand(p, L->ops[0], R)}),
                                mkNary(BoolE::AND, {expand(n), cmpExpand(p, L->ops[1], R)})});
    }
    bool mn = L->k == Real::MIN;
    std::vector<BoolRef> v;
    if (p == EQ || p == NE) {
      std::vector<BoolRef> any;
      for (auto &o : L->ops) { v.push_back(cmpExpand(mn ? GE : LE, o, R)); any.push_back(cmpExpand(EQ, o, R)); }
      v.push_back(mkNary(BoolE::OR, any));
      BoolRef e = mkNary(BoolE::AND, v);
      return p == EQ ? e : mkNot(e);
    }
    for (auto &o : L->ops) v.push_back(cmpExpand(p, o, R));
    bool lower = (p == LT || p == LE);
    // min < r : or ; min > r : and ; max < r : and ; max > r : or
    return mkNary((mn == lower) ? BoolE::OR : BoolE::AND, v);
  }
  BoolRef expand(const BoolRef &b) {
    if (b->k != BoolE::CMP) return b;
    if (b->ex) return b->ex;
    BoolRef e = cmpExpand(b->neg ? notP(b->pred) : b->pred, b->L, b->R);
    b->ex = e;
    return e;
  }
  // 1 true 0 false 2 unknown, without solver
  int evalQuick(const BoolRef &b) {
    switch (b->k) {
      case BoolE::CONST: return b->c;
      case BoolE::ATOM: {
        int m = quickMask(b->atom);
        if ((m & b->mask) == m) return 1;
        if ((m & b->mask) == 0) return 0;
        return 2;
      }
      case BoolE::AND: { int r = 1; for (auto &x : b->ch) { int e = evalQuick(x); if (e == 0) return 0; if (e == 2) r = 2; } return r; }
      case BoolE::OR: { int r = 0; for (auto &x : b->ch) { int e = evalQuick(x); if (e == 1) return 1; if (e == 2) r = 2; } return r; }
      case BoolE::CMP: return evalQuick(expand(b));
    }
    return 2;
  }
  void learn(const BoolRef &b) {
    if (b->k == BoolE::ATOM) {
      int m = maskOf(b->atom), nm = m & b->mask;
      if (nm != m) {
        st->signs[b->atom] = nm;
        if (nm == MZ) learnZero(b->atom);
        // strip factors of known sign
        const Poly &p = AT.p[b->atom];
        if (p.t.size() > 1) stripLearn(b->atom, nm);
      }
    } else if (b->k == BoolE::AND) for (auto &x : b->ch) learn(x);
    else if (b->k == BoolE::CMP) learn(expand(b));
  }
  void stripLearn(int atom, int m) {
    Poly p = AT.p[atom];
    std::map<unsigned, unsigned> mc;
    bool first = true;
    for (auto &x : p.t) {
      std::map<unsigned, unsigned> cur;
      for (auto &e : MT.v[x.m]) cur[e.first] = e.second;
      if (first) { mc = cur; first = false; }
      else for (auto it = mc.begin(); it != mc.end();) {
        auto f = cur.find(it->first);
        if (f == cur.end()) it = mc.erase(it);
        else { it->second = std::min(it->second, f->second); ++it; }
      }
      if (mc.empty()) return;
    }
    int s = 1; bool any = false;
    for (auto &kv : mc) {
      int vm = varMask(kv.first);
      if (vm != MP && vm != MN) continue;
      Poly q, v = Poly::var(kv.first);
      for (unsigned k = 0; k < kv.second; k++) { if (!pdivExact(p, v, q)) return; p = q; }
      if (vm == MN && kv.second % 2) s = -s;
      any = true;
    }
    if (!any || p.isConst()) return;
    Q c;
    int a = atomize(p, c);
    if ((c > 0 ? 1 : -1) * s < 0) m = flipMask(m);
    BoolRef b = mkAtom(a, m);
    if (b->k == BoolE::ATOM) {
      int om = maskOf(a);
      if ((om & m) != om) { S->add(zbool(b)); learn(b); }
    }
  }
  void learnZero(int atom) {
    // linear elimination: c*v + rest == 0 with v only in one degree-1 monomial
    Poly p = AT.p[atom];
    for (auto &s : st->subst) p = substVar(p, s.first, s.second);
    if (p.zero() || p.isConst()) return;
    for (auto &t : p.t) {
      if (MT.deg[t.m] != 1) continue;
      unsigned v = MT.v[t.m][0].first;
      if (VARS[v].kind != 0) continue;
      int occ = 0;
      for (auto &u : p.t) for (auto &f : MT.v[u.m]) if (f.first == v) occ++;
      if (occ != 1) continue;
      Poly rest;
      for (auto &u : p.t) if (u.m != t.m) rest.t.push_back({u.m, Q(-u.c / t.c)});
      st->subst.push_back({v, rest});
      return;
    }
  }
  static Poly substVar(const Poly &p, unsigned v, const Poly &val) {
    Poly r, keep;
    bool any = false;
    for (auto &t : p.t) {
      unsigned e = 0;
      MonoV rest;
      for (auto &f : MT.v[t.m]) { if (f.first == v) e = f.second; else rest.push_back(f); }
      if (!e) { keep.t.push_back(t); continue; }
      any = true;
      Poly m;
      m.t.push_back({MT.intern(rest), t.c});
      for (unsigned k = 0; k < e; k++) m = pmul(m, val);
      r = padd(r, m);
    }
    if (!any) return p;
    return padd(keep, r);
  }
  int decide(const BoolRef &b0) {
    BoolRef b = expand(b0);
    int q = evalQuick(b);
    if (q != 2) return q;
    if (check(zbool(b)) == z3::unsat) { learn(mkNot(b)); return 0; }
    BoolRef n = mkNot(b);
    if (check(zbool(n)) == z3::unsat) { learn(b); return 1; }
    return 2;
  }
  void addPC(const BoolRef &b) {
    st->pc.push_back(b);
    S->add(zbool(b));
    learn(b);
  }
  [[noreturn]] void forkOn(const BoolRef &b) {
    if (spec) throw SpecAbort();
    nforks++;
    StateP c(new State(*st));
    c->forks++;
    st->forks++;
    pend.push_back({std::move(c), mkNot(b), depth});
    S->push();
    depth++;
    addPC(b);
    throw Retry();
  }
  bool decideOrFork(const BoolRef &b) {
    int d = decide(b);
    if (d != 2) return d;
    forkOn(expand(b));
  }

  // ---------------------------------------------------------------- reals
  RealRef force(const RealRef &r) {
    if (r->k == Real::RFK) return r;
    if (r->k == Real::ITE) return force(decideOrFork(r->cond) ? r->ops[0] : r->ops[1]);
    // min/max: pick extremal operand
    for (size_t i = 0; i < r->ops.size(); i++) {
      if (i + 1 == r->ops.size()) return force(r->ops[i]);
      std::vector<BoolRef> v;
      for (size_t j = 0; j < r->ops.size(); j++)
        if (j != i) v.push_back(cmpExpand(r->k == Real::MIN ? LE : GE, r->ops[i], r->ops[j]));
      if (decideOrFork(mkNary(BoolE::AND, v))) return force(r->ops[i]);
    }
    return r;
  }
  static bool sameReal(const RealRef &a, const RealRef &b) {
    if (a.p == b.p) return true;
    if (a->k != Real::RFK || b->k != Real::RFK) return false;
    return a->rf.den == b->rf.den && peq(a->rf.num, b->rf.num);
  }
  static void flat(std::vector<RealRef> &o, const RealRef &r, Real::K k) {
    if (r->k == k) for (auto &x : r->ops) flat(o, x, k);
    else { for (auto &y : o) if (sameReal(y, r)) return; o.push_back(r); }
  }
  RealRef mkMinMax(Real::K k, const RealRef &a, const RealRef &b) {
    std::vector<RealRef> o;
    flat(o, a, k);
    flat(o, b, k);
    // fold constants of huge magnitude out and combine constants
    if (o.size() == 1) return o[0];
    std::vector<RealRef> keep;
    RealRef cst;
    for (auto &x : o) {
      if (x->k == Real::RFK && x->rf.isConst()) {
        Q q = x->rf.num.constVal();
        if (!cst) cst = x;
        else { Q c = cst->rf.num.constVal(); if (k == Real::MIN ? q < c : q > c) cst = x; }
      } else keep.push_back(x);
    }
    if (cst) {
      Q c = cst->rf.num.constVal();
      // sentinel +-1e30 : assumed beyond any coordinate (documented assumption)
      bool sent = keep.size() && ((k == Real::MIN && c > Q("100000000000000000000000000")) ||
                                  (k == Real::MAX && c < Q("-100000000000000000000000000")));
      if (!sent) keep.push_back(cst);
    }
    if (keep.size() == 1) return keep[0];
    Real *r = new Real;
    r->k = k;
    r->ops = keep;
    return RealRef(r);
  }
  RealRef mkSelect(const BoolRef &c, const RealRef &a, const RealRef &b) {
    if (sameReal(a, b)) return a;
    if (c->k == BoolE::CMP && c->pred != EQ && c->pred != NE) {
      Pred p = c->neg ? notP(c->pred) : c->pred;
      bool lt = (p == LT || p == LE);
      if (sameReal(a, c->L) && sameReal(b, c->R)) return mkMinMax(lt ? Real::MIN : Real::MAX, a, b);
      if (sameReal(a, c->R) && sameReal(b, c->L)) return mkMinMax(lt ? Real::MAX : Real::MIN, a, b);
    }
    Real *r = new Real;
    r->k = Real::ITE;
    r->cond = c;
    r->ops = {a, b};
    return RealRef(r);
  }
  Val mkCmp(Pred p, const RealRef &L, const RealRef &R) {
    if (L->k == Real::RFK && R->k == Real::RFK && L->rf.isConst() && R->rf.isConst()) {
      int c = cmp(L->rf.num.constVal(), R->rf.num.constVal());
      return Val::I((predMask(p) & (c < 0 ? MN : c == 0 ? MZ : MP)) != 0);
    }
    // comparisons against huge sentinels are decided (documented assumption)
    for (int sw = 0; sw < 2; sw++) {
      const RealRef &a = sw ? R : L, &b = sw ? L : R;
      if (a->k == Real::RFK && a->rf.isConst() && !(b->k == Real::RFK && b->rf.isConst())) {
        Q c = a->rf.num.constVal();
        if (abs(c) > Q("100000000000000000000000000")) {
          int s = c > 0 ? MP : MN;          // sign of a-b
          int ms = predMask(sw ? swapP(p) : p);
          // For symmetrical select-recognition keep provenance for strict min/max idioms
          BoolE *e = new BoolE; e->k = BoolE::CMP; e->pred = p; e->L = L; e->R = R; e->ex = mkConst(ms & s);
          Val v; v.k = Val::COND; v.n = IP<Node>(e);
          return Val::I((ms & s) != 0);
        }
      }
    }
    BoolE *e = new BoolE;
    e->k = BoolE::CMP; e->pred = p; e->L = L; e->R = R;
    BoolRef b(e);
    if (L->k == Real::RFK && R->k == Real::RFK && L->rf.den.empty() && R->rf.den.empty()) {
      BoolRef x = expand(b);
      if (x->k == BoolE::CONST) return Val::I(x->c);
    }
    return Val::B(b);
  }
  RealRef rAdd(const RealRef &a0, const RealRef &b0, int s) {
    RealRef a = force(a0), b = force(b0);
    // absorb tiny constants (1e-299 guards)
    if (b->rf.isConst() && !b->rf.num.zero() && !a->rf.num.zero() && abs(b->rf.num.constVal()) < tiny()) return a;
    if (a->rf.isConst() && !a->rf.num.zero() && !b->rf.num.zero() && abs(a->rf.num.constVal()) < tiny() && s > 0) return b;
    return mkRF(rfAdd(a->rf, b->rf, s));
  }
  static const Q &tiny() { static Q t = Q(mpz_class(1), mpz_class("1" + std::string(150, '0'))); return t; }
  RealRef rMul(const RealRef &a0, const RealRef &b0) {
    RealRef a = force(a0), b = force(b0);
    return mkRF(rfMul(a->rf, b->rf));
  }
  RealRef rDiv(const RealRef &a0, const RealRef &b0) {
    RealRef a = force(a0), b = force(b0);
    if (b->rf.num.zero()) throw Violation{"div-zero", "floating division by zero", BoolRef()};
    if (!b->rf.num.isConst()) {
      Q c;
      Den fs;
      factorNum(b->rf.num, c, fs);
      for (auto &f : fs) {
        int m = quickMask(f.first);
        if (m == MN || m == MP) continue;
        m = solveMask(f.first);
        if (m == MN || m == MP) continue;
        if (m == MZ || m == 0) throw Violation{"div-zero", "floating division by zero", BoolRef()};
        if (m & MZ) forkOn(mkAtom(f.first, m & ~MZ));
        forkOn(mkAtom(f.first, MP));
      }
    }
    return mkRF(rfDiv(a->rf, b->rf));
  }
  std::map<std::string, unsigned> sqrtAtoms;
  RF sqrtInt(mpz_class n) {  // sqrt of positive integer
    mpz_class out = 1;
    RF r = rfConst(1);
    if (mpz_perfect_square_p(n.get_mpz_t())) { mpz_class s = sqrt(n); return rfConst(Q(s)); }
    for (unsigned long p = 2; p < 200000 && mpz_class(p) * p <= n; p++) {
      int e = 0;
      while (mpz_divisible_ui_p(n.get_mpz_t(), p)) { n /= p; e++; }
      for (int i = 0; i < e / 2; i++) out *= p;
      if (e % 2) r = rfMul(r, rfVar(sqrtAtom(Poly::constant(Q(mpz_class(p))))));
    }
    if (n != 1) {
      if (mpz_perfect_square_p(n.get_mpz_t())) out *= sqrt(n);
      else r = rfMul(r, rfVar(sqrtAtom(Poly::constant(Q(n)))));
    }
    return rfMul(r, rfConst(Q(out)));
  }
  unsigned sqrtAtom(const Poly &rad) {
    std::string k = rad.isConst() ? "c" + rad.constVal().get_str() : "a" + std::to_string(AT.intern(rad));
    auto it = sqrtAtoms.find(k);
    if (it != sqrtAtoms.end()) return it->second;
    unsigned v = newVar("sqrt" + std::to_string(sqrtAtoms.size()), 1);
    setRule(v, rad);
    sqrtAtoms[k] = v;
    return v;
  }
  RealRef rSqrt(const RealRef &a0) {
    RealRef a = force(a0);
    const RF &e = a->rf;
    if (e.num.zero()) return a;
    if (e.isConst()) {
      Q q = e.num.constVal();
      if (q < 0) throw Violation{"sqrt-neg", "square root of a negative number", BoolRef()};
      RF r = sqrtInt(q.get_num() * q.get_den());
      return mkRF(rfMul(r, rfConst(Q(mpz_class(1), q.get_den()))));
    }
    // e = num/den ; sqrt = sqrt(num*den_odd)/(den^ceil)
    Poly n = e.num;
    RF scale = rfConst(1);
    for (auto &d : e.den) {
      if (d.second % 2) n = pmul(n, AT.p[d.first]);
      int h = (d.second + 1) / 2;
      RF f;
      f.num = Poly::constant(1);
      f.den = {{d.first, h}};
      scale = rfMul(scale, f);
      // scale must be positive: take |.|
      int m = solveMask(d.first);
      if (h % 2 && m == MN) scale = rfMul(scale, rfConst(-1));
      else if (h % 2 && m != MP) forkOn(mkAtom(d.first, MP));
    }
    Q c;
    Den fs;
    // square-free splitting over monomial content and known factors
    Poly root;
    Q ct = content(n);
    if (ct < 0) ct = -ct;
    Poly prim = pscale(n, 1 / ct);
    RF cs = rfMul(sqrtInt(ct.get_num() * ct.get_den()), rfConst(Q(mpz_class(1), ct.get_den())));
    if (psqrtExact(prim, root)) {
      if (!root.isConst()) {
        Q rc;
        int ra = atomize(root, rc);
        int m = quickMask(ra);
        if (m != MP && m != MN && m != (MP | MZ) && m != (MN | MZ)) {
          if (!decideOrFork(mkAtom(ra, MP | MZ))) root = pscale(root, -1);
        } else if (m & MN) root = pscale(root, -1);
      }
      RF r; r.num = root;
      return mkRF(rfMul(rfMul(r, cs), scale));
    }
    factorNum(prim, c, fs);
    if (c < 0) {  // put the sign in the last factor: keep a single atom instead
      fs.clear();
    }
    RF r = rfConst(1);
    if (fs.empty()) r = rfVar(sqrtAtom(prim));
    else {
      Poly odd = Poly::constant(1);
      for (auto &f : fs) {
        if (f.second / 2) {
          RF p; p.num = Poly::constant(1);
          for (int k = 0; k < f.second / 2; k++) p.num = pmul(p.num, AT.p[f.first]);
          if ((f.second / 2) % 2) {
            int m = quickMask(f.first);
            if (m == MN || m == (MN | MZ)) p.num = pscale(p.num, -1);
            else if (m != MP && m != (MP | MZ)) { if (!decideOrFork(mkAtom(f.first, MP | MZ))) p.num = pscale(p.num, -1); }
          }
          r = rfMul(r, p);
        }
        if (f.second % 2) odd = pmul(odd, AT.p[f.first]);
      }
      if (!odd.isConst()) r = rfMul(r, rfVar(sqrtAtom(odd)));
    }
    // q > 0 unless radicand 0
    return mkRF(rfMul(rfMul(r, cs), scale));
  }
  std::map<std::string, std::pair<unsigned, unsigned>> trig;
  std::pair<RealRef, RealRef> rSinCos(const RealRef &a0) {
    RealRef a = force(a0);
    if (a->rf.num.zero()) return {mkQ(0), mkQ(1)};
    // canonical up to sign
    std::string k = rfstr(a->rf);
    RF neg = rfMul(a->rf, rfConst(-1));
    std::string kn = rfstr(neg);
    bool flip = false;
    if (trig.count(kn)) { flip = true; k = kn; }
    auto it = trig.find(k);
    if (it == trig.end()) {
      unsigned c = newVar("cos" + std::to_string(trig.size()), 3);
      unsigned s = newVar("sin" + std::to_string(trig.size()), 2);
      VARS[s].link = c;
      VARS[c].link = s;
      if (a->rf.num.t.size() == 1 && MT.deg[a->rf.num.t[0].m] == 1 && a->rf.den.empty() && a->rf.num.t[0].c == 1)
        VARS[s].arg = Q((long)MT.v[a->rf.num.t[0].m][0].first);
      else VARS[s].arg = -1;
      Poly cp = Poly::var(c);
      setRule(s, padd(Poly::constant(1), pmul(cp, cp), -1));
      it = trig.insert({k, {s, c}}).first;
    }
    RealRef s = mkRF(rfVar(it->second.first)), c = mkRF(rfVar(it->second.second));
    if (flip) s = mkRF(rfMul(s->rf, rfConst(-1)));
    return {s, c};
  }
  // floor via solver-guided concretisation
  Q modelVal(const RF &r) {
    // some feasible numeric value of r under the abstraction
    double t = now();
    S->push();
    z3::check_result cr = S->check();
    Q v = 0;
    nq++;
    if (cr == z3::sat) {
      z3::model m = S->get_model();
      auto ev = [&](const Poly &p) {
        Q s = 0;
        for (auto &x : p.t) {
          if (x.m == 0) { s += x.c; continue; }
          z3::expr e = m.eval(zmono(x.m), true);
          Q q(std::string(Z3_get_numeral_string(z, e)));
          s += x.c * q;
        }
        return s;
      };
      Q n = ev(r.num), d = 1;
      for (auto &f : r.den) for (int k = 0; k < f.second; k++) d *= ev(AT.p[f.first]);
      v = d == 0 ? Q(0) : Q(n / d);
    }
    S->pop();
    relemma();
    tq += now() - t;
    return v;
  }
  mpz_class floorQ(const Q &q) { mpz_class r; mpz_fdiv_q(r.get_mpz_t(), q.get_num().get_mpz_t(), q.get_den().get_mpz_t()); return r; }
  int concDepth = 0;
  mpz_class rFloor(const RealRef &a0, bool ceil_) {
    RealRef a = force(a0);
    if (ceil_) {
      RealRef n = mkRF(rfMul(a->rf, rfConst(-1)));
      return -rFloor(n, false);
    }
    if (a->rf.isConst()) return floorQ(a->rf.num.constVal());
    if (st->forks > 5000) throw Unsupported{"unbounded floor concretisation"};
    mpz_class k = floorQ(modelVal(a->rf));
    for (int it = 0; it < 64; it++) {
      BoolRef ge = signRel(rfAdd(a->rf, rfConst(Q(k)), -1), GE);
      int d = decide(ge);
      if (d == 0) { k -= 1; continue; }
      BoolRef lt = signRel(rfAdd(a->rf, rfConst(Q(k + 1)), -1), LT);
      int d2 = decide(lt);
      if (d2 == 0) { k += 1; continue; }
      if (d == 1 && d2 == 1) return k;
      forkOn(mkNary(BoolE::AND, {ge, lt}));
    }
    throw Unsupported{"floor concretisation failed"};
  }

  // ---------------------------------------------------------------- memory access
  uint32_t newObj(uint64_t size, const std::string &name, bool heap, bool init0) {
    ObjP o = std::make_shared<Obj>();
    o->size = size;
    o->data.assign(size, 0);
    o->st.assign(size, init0 ? 1 : 0);
    o->heap = heap;
    o->name = name;
    st->objs.push_back(o);
    return st->objs.size() - 1;
  }
  Obj *getObj(uint64_t ptr, uint64_t sz, uint64_t &off, bool write, const char *what) {
    uint32_t id = ptr >> 32;
    int64_t o = (int64_t)(ptr & 0xffffffffull) - (int64_t)BIAS;
    if (id == 0) throw Violation{"null-deref", std::string("null or wild pointer in ") + what, BoolRef()};
    if (id >= st->objs.size()) throw Violation{"wild-pointer", std::string("wild pointer in ") + what, BoolRef()};
    if (!st->objs[id]) throw Violation{"use-after-free", std::string("access to dead object in ") + what, BoolRef()};
    ObjP &p = st->objs[id];
    if (o < 0 || (uint64_t)o + sz > p->size)
      throw Violation{"out-of-bounds", std::string("out-of-bounds ") + what + " of object '" + p->name + "' (size " + std::to_string(p->size) + ", offset " + std::to_string(o) + ", width " + std::to_string(sz) + ")", BoolRef()};
    if (write && p.use_count() > 1) p = std::make_shared<Obj>(*p);
    off = o;
    return p.get();
  }
  Val load(uint64_t ptr, unsigned sz, bool real) {
    if (spec) for (size_t i = specStores.size(); i-- > 0;) {
      auto &s = specStores[i];
      if (s.addr == ptr && s.sz == sz && s.real == real) return s.v;
      if (ptr < s.addr + s.sz && s.addr < ptr + sz) throw SpecAbort();
    }
    uint64_t off;
    Obj *o = getObj(ptr, sz, off, false, "read");
    if (o->st[off] == 2 && off % 4 == 0 && o->slot[off / 4] && o->span[off / 4] == sz) return Val::R(o->slot[off / 4]);
    if (o->st[off] == 3 && off % 4 == 0 && o->slot[off / 4] && sz == 4) return Val::SI(o->slot[off / 4]);
    for (unsigned k = 0; k < sz; k++) {
      if (o->st[off + k] == 0) return Val();
      if (o->st[off + k] >= 2) throw Unsupported{"partial read of a symbolic slot"};
    }
    uint64_t v = 0;
    memcpy(&v, &o->data[off], sz);
    if (real) {
      double d;
      if (sz == 8) memcpy(&d, &v, 8);
      else { float f; memcpy(&f, &v, 4); d = f; }
      return Val::R(mkQ(ratFromDouble(d)));
    }
    return Val::I(v);
  }
  void clearSlots(Obj *o, uint64_t off, uint64_t sz) {
    if (o->slot.empty()) return;
    uint64_t a = off >= 4 ? (off - 4) / 4 : 0, b = (off + sz + 3) / 4;
    for (uint64_t s = a; s < b && s < o->slot.size(); s++) {
      if (!o->slot[s]) continue;
      uint64_t so = s * 4, se = so + o->span[s];
      if (so < off + sz && off < se) {
        for (uint64_t k = so; k < se; k++) o->st[k] = 0;
        o->slot[s] = RealRef();
      }
    }
  }
  void store(uint64_t ptr, unsigned sz, const Val &v0, bool real) {
    Val v = v0;
    if (spec) {
      if (v.k == Val::COND) throw SpecAbort();
      uint64_t off;
      getObj(ptr, sz, off, false, "write");
      for (auto &s : specStores) {
        if (s.addr == ptr && s.sz == sz) { s.v = v; s.real = real; return; }
        if (ptr < s.addr + s.sz && s.addr < ptr + sz) throw SpecAbort();
      }
      specStores.push_back({ptr, sz, v, real});
      return;
    }
    if (v.k == Val::COND) v = Val::I(decideOrFork(v.cond()));
    uint64_t off;
    Obj *o = getObj(ptr, sz, off, true, "write");
    if (o->constant) throw Violation{"write-const", "write to constant object", BoolRef()};
    clearSlots(o, off, sz);
    if (v.k == Val::UNDEF) { for (unsigned k = 0; k < sz; k++) o->st[off + k] = 0; return; }
    if (v.k == Val::INT) {
      memcpy(&o->data[off], &v.i, sz);
      for (unsigned k = 0; k < sz; k++) o->st[off + k] = 1;
      return;
    }
    if (v.k == Val::SINT && sz != 4) throw Unsupported{"store of a widened symbolic integer"};
    if (v.k == Val::REAL || v.k == Val::SINT) {
      if (off % 4) throw Unsupported{"misaligned real store"};
      if (o->slot.empty()) { o->slot.resize((o->size + 3) / 4); o->span.resize((o->size + 3) / 4); }
      o->slot[off / 4] = v.real();
      o->span[off / 4] = sz;
      for (unsigned k = 0; k < sz; k++) o->st[off + k] = v.k == Val::SINT ? 3 : 2;
      return;
    }
    throw Unsupported{"store of aggregate"};
  }
  void copyMem(uint64_t d, uint64_t s, uint64_t n) {
    if (!n) return;
    if (spec) throw SpecAbort();
    uint64_t so, doff;
    ObjP src;
    getObj(s, n, so, false, "memcpy read");
    src = st->objs[s >> 32];
    Obj *o = getObj(d, n, doff, true, "memcpy write");
    Obj *p = src.get();
    if (o == p) {  // same object: go through a temporary
      src = std::make_shared<Obj>(*p);
      p = src.get();
    }
    clearSlots(o, doff, n);
    memcpy(&o->data[doff], &p->data[so], n);
    memcpy(&o->st[doff], &p->st[so], n);
    if (!p->slot.empty()) {
      if (so % 4 != doff % 4) throw Unsupported{"misaligned copy of reals"};
      uint64_t a = (so + 3) / 4, b = (so + n) / 4;
      bool any = false;
      for (uint64_t k = a; k < b; k++) if (p->slot[k]) { any = true; break; }
      if (any) {
        if (o->slot.empty()) { o->slot.resize((o->size + 3) / 4); o->span.resize((o->size + 3) / 4); }
        int64_t sh = ((int64_t)doff - (int64_t)so) / 4;
        for (uint64_t k = a; k < b; k++) if (p->slot[k]) {
          if (k * 4 + p->span[k] > so + n) throw Unsupported{"partial copy of real"};
          o->slot[k + sh] = p->slot[k];
          o->span[k + sh] = p->span[k];
        }
      }
    }
  }
  void setMem(uint64_t d, uint8_t c, uint64_t n) {
    if (!n) return;
    if (spec) throw SpecAbort();
    uint64_t off;
    Obj *o = getObj(d, n, off, true, "memset");
    clearSlots(o, off, n);
    memset(&o->data[off], c, n);
    memset(&o->st[off], 1, n);
  }
  std::string cstr(uint64_t p) {
    std::string s;
    for (int i = 0; i < 4096; i++) {
      uint64_t off;
      Obj *o = getObj(p + i, 1, off, false, "string read");
      if (!o->data[off]) break;
      s += (char)o->data[off];
    }
    return s;
  }

  // ---------------------------------------------------------------- decoding
  bool isRealTy(Type *t) { return t->isDoubleTy() || t->isFloatTy(); }
  unsigned bitw(Type *t) { return t->isPointerTy() ? 64 : t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }
  unsigned bytesOf(Type *t) { return DL->getTypeStoreSize(t); }
  Val constVal(const Constant *c) {
    if (auto *ci = dyn_cast<ConstantInt>(c)) {
      if (ci->getBitWidth() > 64) throw Unsupported{"wide int"};
      return Val::I(ci->getZExtValue());
    }
    if (auto *cf = dyn_cast<ConstantFP>(c)) {
      APFloat f = cf->getValueAPF();
      bool li;
      f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li);
      if (f.isInfinity()) { Q big(mpz_class(1) << 2000); return Val::R(mkQ(f.isNegative() ? Q(-big) : big)); }  // larger than every double
      if (!f.isFinite()) return Val();
      return Val::R(mkQ(ratFromDouble(f.convertToDouble())));
    }
    if (isa<ConstantPointerNull>(c)) return Val::I(0);
    if (isa<UndefValue>(c)) return Val();
    if (auto *g = dyn_cast<GlobalVariable>(c)) return Val::I(mkptr(gid[g], 0));
    if (auto *f = dyn_cast<Function>(c)) return Val::I(mkptr(0xf0000000u + fnPtr(f), 0));
    if (c->isNullValue()) {
      Type *t = c->getType();
      if (isRealTy(t)) return Val::R(mkQ(0));
      if (t->isAggregateType()) {
        Val v; v.k = Val::AGG;
        Agg *a = new Agg;
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        for (unsigned i = 0; i < n; i++) a->v.push_back(constVal(c->getAggregateElement(i)));
        v.n = IP<Node>(a);
        return v;
      }
      return Val::I(0);
    }
    if (auto *ce = dyn_cast<ConstantExpr>(c)) {
      if (ce->getOpcode() == Instruction::GetElementPtr) {
        auto *gep = cast<GEPOperator>(ce);
        APInt off(64, 0);
        if (gep->accumulateConstantOffset(*DL, off)) {
          Val b = constVal(cast<Constant>(gep->getPointerOperand()));
          return Val::I(b.i + off.getSExtValue());
        }
      }
      if (ce->isCast()) return constVal(ce->getOperand(0));
    }
    std::string s;
    raw_string_ostream os(s);
    c->print(os);
    throw Unsupported{"constant " + s};
  }
  uint32_t fnPtr(const Function *f) {
    auto it = fpid.find(f);
    if (it != fpid.end()) return it->second;
    fptr.push_back(f);
    return fpid[f] = fptr.size() - 1;
  }
  FnInfo *getFn(const Function *F) {
    auto it = fns.find(F);
    if (it != fns.end()) return it->second.get();
    auto fi = std::make_unique<FnInfo>();
    fi->F = F;
    if (auto *sp = F->getSubprogram()) {
      std::string f = sp->getFilename().str(), d = sp->getDirectory().str();
      fi->repo = (f.find("/repo/") != std::string::npos || d.find("/repo") == 0);
    }
    for (auto &a : F->args()) fi->slot[&a] = fi->nregs++;
    int bi = 0;
    for (auto &bb : *F) {
      fi->bidx[&bb] = bi++;
      for (auto &I : bb) if (!I.getType()->isVoidTy()) fi->slot[&I] = fi->nregs++;
    }
    for (auto &bb : *F) {
      DBlock db;
      db.bb = &bb;
      for (auto &I : bb) {
        DInst d;
        d.I = &I;
        d.op = I.getOpcode();
        if (!I.getType()->isVoidTy()) d.dst = fi->slot[&I];
        if (isa<PHINode>(I)) db.nphi++;
        if (auto *cb = dyn_cast<CallBase>(&I)) {
          if (isa<DbgInfoIntrinsic>(I)) { continue; }
          for (auto &a : cb->args()) d.ops.push_back(opnd(fi.get(), a.get()));
          d.ops.push_back(opnd(fi.get(), cb->getCalledOperand()));
        } else if (d.op == Instruction::GetElementPtr) {
          auto *g = cast<GetElementPtrInst>(&I);
          d.ops.push_back(opnd(fi.get(), g->getPointerOperand()));
          for (auto ti = gep_type_begin(g), e = gep_type_end(g); ti != e; ++ti) {
            if (StructType *stt = ti.getStructTypeOrNull()) {
              unsigned f = cast<ConstantInt>(ti.getOperand())->getZExtValue();
              d.aux += DL->getStructLayout(stt)->getElementOffset(f);
            } else {
              int64_t sc = DL->getTypeAllocSize(ti.getIndexedType());
              if (auto *ci = dyn_cast<ConstantInt>(ti.getOperand())) d.aux += sc * ci->getSExtValue();
              else {
                d.ops.push_back(opnd(fi.get(), ti.getOperand()));
                d.gep.push_back({sc, (int)d.ops.size() - 1});
                d.gep.back().first = sc;
              }
            }
          }
        } else
          for (auto &o : I.operands()) {
            if (isa<BasicBlock>(o.get())) { d.ops.push_back(Opnd()); continue; }
            d.ops.push_back(opnd(fi.get(), o.get()));
          }
        if (d.op == Instruction::Load) { d.width = bytesOf(I.getType()); d.isReal = isRealTy(I.getType()); }
        else if (d.op == Instruction::Store) { Type *t = I.getOperand(0)->getType(); d.width = bytesOf(t); d.isReal = isRealTy(t); }
        else if (I.getNumOperands() && I.getOperand(0)->getType()->isIntegerTy()) d.width = bitw(I.getOperand(0)->getType());
        db.ins.push_back(std::move(d));
      }
      fi->blocks.push_back(std::move(db));
    }
    FnInfo *r = fi.get();
    fns[F] = std::move(fi);
    return r;
  }
  Opnd opnd(FnInfo *fi, const Value *v) {
    Opnd o;
    if (auto *c = dyn_cast<Constant>(v)) { 
      if (c->getType()->isMetadataTy()) return o;
      o.c = constVal(c); return o; }
    if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) return o;
    auto it = fi->slot.find(v);
    if (it == fi->slot.end()) throw Unsupported{"operand"};
    o.reg = it->second;
    return o;
  }
  const Val &get(const Opnd &o) { return o.reg >= 0 ? st->fr.back().regs[o.reg] : o.c; }
  int64_t sext(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }
  uint64_t mask(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
  BoolRef sicmp(Pred p, const RealRef &a, const RealRef &b) {
    if (p == LT) return cmpExpand(LE, mkRF(rfAdd(a->rf, rfConst(1), 1)), b);
    if (p == GT) return cmpExpand(GE, a, mkRF(rfAdd(b->rf, rfConst(1), 1)));
    return cmpExpand(p, a, b);
  }
  RealRef sireal(const Val &v, unsigned w) { return v.k == Val::SINT ? siNorm(v.real()) : mkQ(Q((long)sext(v.i, w))); }
  // a symbolic integer used where a concrete one is needed: one path per feasible value. Values far away from
  // any object (a wild index) are represented by one of them.
  RealRef siNorm(const RealRef &r) {
    if (r->rf.isConst() || st->ival.empty()) return r;
    Q c = 0;
    for (auto &t : r->rf.num.t) {
      if (t.m == 0) { c += t.c; continue; }
      auto it = MT.deg[t.m] == 1 ? st->ival.find(MT.v[t.m][0].first) : st->ival.end();
      if (it == st->ival.end()) return r;
      c += t.c * Q((long)it->second);
    }
    return mkQ(c);
  }
  int64_t concretize(const RealRef &r0) {
    RealRef r = siNorm(r0);
    if (r->rf.isConst()) return r->rf.num.constVal().get_num().get_si();
    if (spec) throw SpecAbort();
    BoolRef far = mkNary(BoolE::OR, {sicmp(LT, r, mkQ(Q(-4))), sicmp(GT, r, mkQ(Q(4096)))});
    bool isFar = decideOrFork(far);
    Q v = modelVal(r->rf);
    if (v.get_den() != 1) throw Unsupported{"fractional integer"};
    BoolRef eq = cmpExpand(EQ, r, mkQ(v));
    if (isFar) { if (decide(eq) != 1) { addPC(eq); st->cut = true; } }
    else if (!decideOrFork(eq)) throw Unsupported{"integer model"};
    { // remember the value of the variable
      unsigned nv = 0, var = 0; Q k = 0, c = 0;
      for (auto &t : r->rf.num.t) { if (t.m == 0) c = t.c; else { nv++; var = MT.v[t.m][0].first; k = t.c; } }
      if (nv == 1) { Q x = (v - c) / k; if (x.get_den() == 1) st->ival[var] = x.get_num().get_si(); }
    }
    return v.get_num().get_si();
  }
  uint64_t needInt(const Val &v, const char *what) {
    if (v.k == Val::INT) return v.i;
    if (v.k == Val::SINT) return (uint64_t)concretize(v.real());
    if (v.k == Val::COND) return decideOrFork(v.cond());
    if (v.k == Val::UNDEF) { if (spec) throw SpecAbort(); throw Violation{"uninit", std::string("uninitialised value used as ") + what, BoolRef()}; }
    if (v.k == Val::REAL) { RealRef r = force(v.real()); if (r->rf.num.zero()) return 0; }
    throw Unsupported{std::string("integer view of a real in ") + what};
  }
  BoolRef asBool(const Val &v) {
    if (v.k == Val::INT) return mkConst(v.i & 1);
    if (v.k == Val::COND) return v.cond();
    if (v.k == Val::UNDEF) { if (spec) throw SpecAbort(); throw Violation{"uninit", "branch on uninitialised value", BoolRef()}; }
    throw Unsupported{"bool view"};
  }

  // ---------------------------------------------------------------- counterexamples
  void collectAtoms(const BoolRef &b, std::set<int> &s) {
    switch (b->k) {
      case BoolE::ATOM: s.insert(b->atom); break;
      case BoolE::AND: case BoolE::OR: for (auto &x : b->ch) collectAtoms(x, s); break;
      case BoolE::CMP: collectAtoms(expand(b), s); break;
      default: break;
    }
  }
  // 1 sat, 0 unsat, 2 unknown
  int fullModel(const BoolRef &extra, std::map<unsigned, Q> &model, unsigned timeout_ms) {
    std::vector<BoolRef> cs = st->pc;
    if (extra) cs.push_back(extra);
    std::set<int> atoms;
    for (auto &c : cs) collectAtoms(c, atoms);
    std::set<unsigned> vars;
    bool linear = true;
    auto scan = [&](const Poly &p) {
      for (auto &t : p.t) { if (MT.deg[t.m] > 1) linear = false; for (auto &f : MT.v[t.m]) vars.insert(f.first); }
    };
    for (int a : atoms) scan(AT.p[a]);
    // rule closure
    std::vector<unsigned> work(vars.begin(), vars.end());
    std::vector<unsigned> ruleVars;
    std::set<unsigned> seen = vars;
    while (!work.empty()) {
      unsigned v = work.back();
      work.pop_back();
      if (MT.ruleVar[v]) {
        ruleVars.push_back(v);
        linear = false;
        for (auto &t : VARS[v].rule.t) for (auto &f : MT.v[t.m]) if (seen.insert(f.first).second) work.push_back(f.first);
      }
      if (VARS[v].kind == 2 || VARS[v].kind == 3) { int l = VARS[v].link; if (seen.insert(l).second) work.push_back(l); }
    }
    vars = seen;
    struct Att { Q m; bool in; bool box; unsigned ms; };
    std::vector<Att> atts = {{Q(1, 8), true, true, timeout_ms / 4}, {Q(1, 4096), true, true, timeout_ms / 4}, {Q(1, 4096), false, true, timeout_ms / 4}, {Q(0), false, false, timeout_ms}};
    if (linear) for (auto &a : atts) a.ms = 20000;
    for (auto &at : atts) {
      bool ints = false;
      for (unsigned v : vars) ints |= VARS[v].isInt;
      z3::solver s = linear ? (ints ? z3::solver(z) : z3::solver(z, "QF_LRA")) : z3::tactic(z, "qfnra-nlsat").mk_solver();
      z3::params p(z);
      p.set("timeout", at.ms);
      s.set(p);
      for (auto &c : cs) s.add(zboolNL(c, at.m, at.in));
      for (unsigned v : ruleVars) {
        z3::expr x = zvarNL(v);
        s.add(x * x == zpolyNL(VARS[v].rule));
        if (VARS[v].kind == 1) s.add(x >= 0);
      }
      if (at.box) for (unsigned v : vars) if (VARS[v].kind == 0) s.add(zvarNL(v) >= -16 && zvarNL(v) <= 16);
      double t = now();
      z3::check_result r;
      try { r = s.check(); } catch (z3::exception &e) { r = z3::unknown; }
      tNL += now() - t;
      nqNL++;
      if (r == z3::sat) {
        z3::model m = s.get_model();
        for (unsigned v : vars) {
          z3::expr e = m.eval(zvarNL(v), true);
          Q q;
          if (e.is_numeral()) q = Q(std::string(Z3_get_numeral_string(z, e)));
          else if (e.is_algebraic()) {
            z3::expr lo(z, Z3_get_algebraic_number_lower(z, e, 20));
            q = Q(std::string(Z3_get_numeral_string(z, lo)));
          }
          model[v] = q;
        }
        return 1;
      }
      if (r == z3::unsat && !at.in && at.m == 0) return 0;
    }
    // sampling fallback: fix nonlinear variables at random until linear
    return sampleModel(cs, vars, ruleVars, model);
  }
  uint64_t rngs = 88172645463325252ull;
  uint64_t rnd() { rngs ^= rngs << 13; rngs ^= rngs >> 7; rngs ^= rngs << 17; return rngs; }
  bool evalAt(const BoolRef &b, const std::map<unsigned, Q> &m) {
    switch (b->k) {
      case BoolE::CONST: return b->c;
      case BoolE::ATOM: { Q v = evalPoly(AT.p[b->atom], m); return b->mask & (v < 0 ? MN : v == 0 ? MZ : MP); }
      case BoolE::AND: for (auto &x : b->ch) if (!evalAt(x, m)) return false; return true;
      case BoolE::OR: for (auto &x : b->ch) if (evalAt(x, m)) return true; return false;
      case BoolE::CMP: return evalAt(expand(b), m);
    }
    return false;
  }
  Q evalPoly(const Poly &p, const std::map<unsigned, Q> &m) {
    Q s = 0;
    for (auto &t : p.t) {
      Q x = t.c;
      for (auto &f : MT.v[t.m]) { auto it = m.find(f.first); Q v = it == m.end() ? Q(0) : it->second; for (int k = 0; k < f.second; k++) x *= v; }
      s += x;
    }
    return s;
  }
  int sampleModel(std::vector<BoolRef> &cs, std::set<unsigned> &vars, std::vector<unsigned> &ruleVars, std::map<unsigned, Q> &model) {
    if (!ruleVars.empty()) return 2;
    std::vector<unsigned> vv(vars.begin(), vars.end());
    double tstart = now();
    for (int tr = 0; tr < 4000 && now() - tstart < 20; tr++) {
      std::map<unsigned, Q> m;
      for (unsigned v : vv) m[v] = Q((long)(rnd() % 129) - 64, 16), m[v].canonicalize();
      bool ok = true;
      for (auto &c : cs) if (!evalAt(c, m)) { ok = false; break; }
      if (ok) { model = m; return 1; }
    }
    return 2;
  }
  std::string where() {
    std::string s;
    for (size_t i = st->fr.size(); i-- > 0;) {
      Frame &f = st->fr[i];
      const DBlock &b = f.fn->blocks[f.bb];
      unsigned pc = std::min<unsigned>(f.pc, b.ins.size() - 1);
      const Instruction *I = b.ins[pc].I;
      s += f.fn->F->getName().str();
      if (DILocation *l = I->getDebugLoc()) s += ":" + std::to_string(l->getLine());
      if (i) s += " < ";
    }
    return s;
  }
  void fillInputs(VRec &r, std::map<unsigned, Q> &model) {
    int def = 0;
    static const char *defs[] = {"1/2", "3/4", "5/4", "7/8", "11/8", "13/16", "17/16", "19/16"};
    for (auto &in : st->inputs) {
      std::string val;
      if (in.kind == 'i' && in.var >= 0) {
        auto it = model.find(in.var);
        val = it != model.end() ? it->second.get_str() : std::to_string(in.ival);
      } else if (in.kind == 'r') {
        Q q;
        auto it = model.find(in.var);
        if (it != model.end()) q = it->second;
        else {
          q = Q(defs[def++ % 8]);
          // angle whose sine/cosine are constrained?
          for (auto &tg : VARS) (void)tg;
          for (unsigned w = 0; w < VARS.size(); w++)
            if (VARS[w].kind == 2 && VARS[w].arg == Q((long)in.var) && model.count(w)) {
              double s = model[w].get_d(), c = model.count(VARS[w].link) ? model[VARS[w].link].get_d() : std::sqrt(std::max(0.0, 1 - s * s));
              q = Q(std::atan2(s, c));
            }
        }
        val = q.get_str();
      } else val = std::to_string(in.ival);
      r.in.push_back({in, val});
    }
  }
  // Further candidate inputs on the same path for the replay: the solver treats sine/cosine as any point of the
  // unit circle and single-precision rounding as any small error, the replay uses the true functions.
  void genAlts(VRec &r, const std::map<unsigned, Q> &model) {
    std::map<unsigned, Q> base = model;
    std::vector<unsigned> angles;
    bool round = false;
    for (auto &x : r.in) if (x.first.kind == 'r' && x.first.var >= 0) base[x.first.var] = Q(x.second);
    for (unsigned w = 0; w < VARS.size(); w++) {
      if (VARS[w].kind == 2 && VARS[w].arg >= 0) angles.push_back(VARS[w].arg.get_num().get_ui());
      round |= VARS[w].kind == 4;
    }
    auto pathHolds = [&](const std::map<unsigned, Q> &m) {
      for (auto &c : st->pc) {
        std::set<int> atoms;
        collectAtoms(c, atoms);
        bool abs = false;
        for (int a : atoms) for (auto &t : AT.p[a].t) for (auto &f : MT.v[t.m]) abs |= VARS[f.first].kind != 0;
        if (!abs && !evalAt(c, m)) return false;
      }
      return true;
    };
    auto emit = [&](const std::map<unsigned, Q> &m) {
      std::vector<std::string> v;
      for (auto &x : r.in) { auto it = x.first.kind == 'r' && x.first.var >= 0 ? m.find(x.first.var) : m.end(); v.push_back(it == m.end() ? x.second : it->second.get_str()); }
      r.alts.push_back(v);
    };
    for (unsigned th : angles) {
      int n = 0;
      for (int up = 0; up < 2; up++) {
        n = 0;
        for (int k = 0; k < 40 && n < 6; k++) for (int sg = 1; sg >= -1 && n < 6; sg -= 2) {
          Q q = Q(3, 4) * sg;
          for (int i = 0; i < k; i++) { if (up) q *= 2; else q /= 2; }
          std::map<unsigned, Q> m = base;
          m[th] = q;
          if (pathHolds(m)) { emit(m); n++; }
        }
      }
    }
    if (round) for (int e : {10, 4, 20, 30}) for (int k = 1; k < 3; k++) {
      std::map<unsigned, Q> m = base;
      Q d = Q(1, 3);
      for (int i = 0; i < e; i++) d /= 2;
      int i = 0;
      for (auto &x : r.in) if (x.first.kind == 'r' && x.first.var >= 0) m[x.first.var] += d * ((++i % k) ? -i : i);
      if (pathHolds(m)) emit(m);
    }
  }
  std::map<std::string, unsigned> truncs;
  // conversion to single precision: relative error up to 2^-24
  RealRef rTrunc(const RealRef &a0) {
    RealRef a = force(a0);
    if (a->rf.isConst()) { float f = (float)a->rf.num.constVal().get_d(); return mkQ(ratFromDouble((double)f)); }
    std::string k = rfstr(a->rf);
    auto it = truncs.find(k);
    if (it == truncs.end()) it = truncs.insert({k, newVar("round" + std::to_string(truncs.size()), 4)}).first;
    RealRef e = mkRF(rfVar(it->second));
    if (decide(cmpExpand(LE, e, mkQ(Q(1, 1 << 24)))) != 1) addPC(cmpExpand(LE, e, mkQ(Q(1, 1 << 24))));
    if (decide(cmpExpand(GE, e, mkQ(Q(-1, 1 << 24)))) != 1) addPC(cmpExpand(GE, e, mkQ(Q(-1, 1 << 24))));
    RF one = rfAdd(e->rf, rfConst(1), 1);
    return mkRF(rfMul(a->rf, one));
  }
  // the path cannot be followed further: a model of its condition so far, for the caller to replay on the real code
  void candidate(const char *kind, const std::string &what) {
    if (++ncut < nextCand || cands.size() >= 6) return;
    nextCand = ncut * 2 + 1;
    std::map<unsigned, Q> m;
    if (fullModel(BoolRef(), m, 3000) != 1) return;
    VRec r;
    r.kind = kind;
    r.msg = what;
    r.where = where();
    fillInputs(r, m);
    cands.push_back(r);
  }
  void cut(const char *what) {
    try { nextCand = 0; candidate("unsupported", what); } catch (...) {}
  }
  // returns true if it was a feasible violation
  void report(const Violation &v) {
    std::map<unsigned, Q> model;
    VRec r;
    r.kind = v.kind;
    r.msg = v.msg;
    r.where = where();
    std::string key = v.kind + "|" + v.msg;
    if (violKeys.count(key) > 0 && viols.size() >= (size_t)maxViol) return;
    int fr = fullModel(v.extra, model, 8000);
    if (fr == 0) { ninfeas++; return; }
    if (fr == 2) { nincon++; note = "undecided: " + v.kind + " " + v.msg + " at " + r.where; candidate("unsupported", "undecided: " + v.msg); return; }
    violKeys.insert(key);
    r.status = "model";
    fillInputs(r, model);
    genAlts(r, model);
    viols.push_back(r);
  }
  void doAssert(const BoolRef &b0, const std::string &msg) {
    nasserts++;
    assertSites[msg]++;
    BoolRef b = expand(b0);
    int q = evalQuick(b);
    if (q == 1) return;
    BoolRef n = mkNot(b);
    if (q == 2) {
      nassertZ3++;
      if (check(zbool(n)) == z3::unsat) { learn(b); return; }
    }
    // try substitution of equalities
    size_t before = viols.size();
    report({"assert", msg, n});
    if (viols.size() > before || q == 0) throw PathEnd{"assertion"};
  }
  void doEq(const Val &a, const Val &b, const std::string &msg, Pred p) {
    if (a.k != Val::REAL || b.k != Val::REAL) {
      report({"uninit", msg + " (uninitialised or undefined value)", BoolRef()});
      throw PathEnd{"assertion"};
    }
    if (p == EQ) {
      RealRef x = force(a.real()), y = force(b.real());
      nasserts++;
      assertSites[msg]++;
      RF d = rfAdd(x->rf, y->rf, -1);
      if (d.num.zero()) return;
      for (auto &s : st->subst) { d.num = substVar(d.num, s.first, s.second); if (d.num.zero()) return; }
      BoolRef e = signRel(d, EQ);
      nasserts--; assertSites[msg]--;
      doAssert(e, msg);
      return;
    }
    Val c = mkCmp(p, a.real(), b.real());
    doAssert(asBool(c), msg);
  }

  // ---------------------------------------------------------------- calls
  RealRef rarg(const Val &v) {
    if (v.k == Val::REAL) return v.real();
    if (v.k == Val::UNDEF) { if (spec) throw SpecAbort(); throw Violation{"uninit", "uninitialised or non-finite real used", BoolRef()}; }
    throw Unsupported{"real arg"};
  }
  bool external(const DInst &d, const std::string &n0, std::vector<Val> &a, Val &ret) {
    std::string n = n0;
    if (n.compare(0, 5, "llvm.") == 0) {
      n = n.substr(5);
      static const char *ign[] = {"lifetime", "dbg", "stackrestore", "assume", "experimental.noalias", "donothing", "invariant", "va_"};
      for (auto *x : ign) if (n.compare(0, strlen(x), x) == 0) return true;
      if (n.compare(0, 9, "stacksave") == 0) { ret = Val::I(0); return true; }
      if (n.compare(0, 6, "memcpy") == 0 || n.compare(0, 7, "memmove") == 0) { copyMem(needInt(a[0], "addr"), needInt(a[1], "addr"), needInt(a[2], "len")); return true; }
      if (n.compare(0, 6, "memset") == 0) { setMem(needInt(a[0], "addr"), needInt(a[1], "byte"), needInt(a[2], "len")); return true; }
      size_t dot = n.find('.');
      std::string base = n.substr(0, dot);
      unsigned w = bitw(d.I->getType());
      if (base == "fmuladd" || base == "fma") { ret = Val::R(rAdd(rMul(rarg(a[0]), rarg(a[1])), rarg(a[2]), 1)); return true; }
      if (base == "smax" || base == "smin" || base == "umax" || base == "umin") {
        uint64_t x = needInt(a[0], "min"), y = needInt(a[1], "min");
        bool lt = base[0] == 's' ? sext(x, w) < sext(y, w) : x < y;
        ret = Val::I((base.substr(1) == "min") == lt ? x : y);
        return true;
      }
      if (base == "abs") { int64_t x = sext(needInt(a[0], "abs"), w); ret = Val::I(mask(x < 0 ? -x : x, w)); return true; }
      if (base == "expect") { ret = a[0]; return true; }
      if (base == "objectsize") { ret = Val::I(~0ull); return true; }
      if (base == "trap" || base == "ubsantrap") throw Violation{"trap", "trap executed", BoolRef()};
      if (base == "ctpop") { ret = Val::I(__builtin_popcountll(needInt(a[0], "ctpop"))); return true; }
      if (base == "ctlz") { uint64_t x = needInt(a[0], "ctlz"); ret = Val::I(x ? __builtin_clzll(x) - (64 - w) : w); return true; }
      if (base == "cttz") { uint64_t x = needInt(a[0], "cttz"); ret = Val::I(x ? __builtin_ctzll(x) : w); return true; }
      if (base == "isnan") { ret = Val::I(0); return true; }
      if (base == "is") {  // is.fpclass: values are finite; -0 and subnormals count as 0 and normal
        uint64_t m = needInt(a[1], "class"); bool pos = (m & 0x1c0) == 0x1c0, neg = (m & 0x38) == 0x38;
        if (pos && neg) { ret = Val::I(1); return true; }
        if (!(m & 0x1f8)) { ret = Val::I(0); return true; }
        if (pos || neg) { RealRef x = force(rarg(a[0])); ret = Val::I(decideOrFork(signRel(x->rf, LT)) ? neg : pos); return true; }
        if ((m & 0x1f8) == 0x60) { RealRef x = force(rarg(a[0])); ret = Val::I(decideOrFork(signRel(x->rf, EQ))); return true; }
        if ((m & 0x1f8) == 0x108) { RealRef x = force(rarg(a[0])); ret = Val::I(!decideOrFork(signRel(x->rf, EQ))); return true; }
        throw Unsupported{"is.fpclass"};
      }
      if (base == "minnum") n = "fmin";
      else if (base == "maxnum") n = "fmax";
      else n = base;  // sqrt, fabs, floor, ceil, pow, sin, cos, log2, powi, round, trunc
    }
    if (!n.empty() && n.back() == 'f' && n != "printf" && n != "fprintf" && n != "sprintf" && n != "snprintf" && n.size() > 3 && isRealTy(d.I->getType())) n.pop_back();
    if (n == "sqrt") { ret = Val::R(rSqrt(rarg(a[0]))); return true; }
    if (n == "fabs") {
      RealRef x = rarg(a[0]);
      if (x->k == Real::RFK && x->rf.isConst()) { ret = Val::R(mkQ(abs(x->rf.num.constVal()))); return true; }
      RealRef f = force(x);
      ret = Val::R(mkMinMax(Real::MAX, f, mkRF(rfMul(f->rf, rfConst(-1)))));
      return true;
    }
    if (n == "copysign") { RealRef x = force(rarg(a[0])), y = force(rarg(a[1])); bool flip = decideOrFork(signRel(x->rf, LT)) != decideOrFork(signRel(y->rf, LT)); ret = Val::R(mkRF(rfMul(x->rf, rfConst(flip ? -1 : 1)))); return true; }
    if (n == "hypot") { RealRef x = force(rarg(a[0])), y = force(rarg(a[1])); ret = Val::R(rSqrt(mkRF(rfAdd(rfMul(x->rf, x->rf), rfMul(y->rf, y->rf), 1)))); return true; }
    if (n == "fdim") { RealRef x = force(rarg(a[0])), y = force(rarg(a[1])); ret = Val::R(mkMinMax(Real::MAX, mkRF(rfAdd(x->rf, y->rf, -1)), mkQ(0))); return true; }
    if (n == "fma") { ret = Val::R(rAdd(rMul(rarg(a[0]), rarg(a[1])), rarg(a[2]), 1)); return true; }
    if (n == "fmin" || n == "fmax") { ret = Val::R(mkMinMax(n == "fmin" ? Real::MIN : Real::MAX, rarg(a[0]), rarg(a[1]))); return true; }
    if (n == "floor" || n == "ceil") { ret = Val::R(mkQ(Q(rFloor(rarg(a[0]), n == "ceil")))); return true; }
    if (n == "trunc") { RealRef x = force(rarg(a[0])); bool neg = decideOrFork(signRel(x->rf, LT)); ret = Val::R(mkQ(Q(rFloor(x, neg)))); return true; }
    if (n == "round" || n == "lround" || n == "rint" || n == "nearbyint") {
      RealRef x = force(rarg(a[0])); bool neg = decideOrFork(signRel(x->rf, LT));
      RealRef y = mkRF(rfAdd(x->rf, rfConst(Q(1, 2)), neg ? -1 : 1));
      mpz_class k = rFloor(y, neg);
      if (n == "lround") ret = Val::I((uint64_t)k.get_si()); else ret = Val::R(mkQ(Q(k)));
      return true;
    }
    if (n == "pow" || n == "powi") {
      RealRef x = force(rarg(a[0]));
      Q e;
      if (n == "powi") e = Q((long)sext(needInt(a[1], "powi"), 32));
      else { RealRef y = force(rarg(a[1])); if (!y->rf.isConst()) throw Unsupported{"pow with symbolic exponent"}; e = y->rf.num.constVal(); }
      if (e.get_den() != 1) {
        if (e == Q(1, 2)) { ret = Val::R(rSqrt(x)); return true; }
        throw Unsupported{"pow with non-integer exponent"};
      }
      long k = e.get_num().get_si();
      bool inv = k < 0;
      if (inv) k = -k;
      RF r = rfConst(1);
      for (long i = 0; i < k; i++) r = rfMul(r, x->rf);
      RealRef rr = mkRF(r);
      if (inv) rr = rDiv(mkQ(1), rr);
      ret = Val::R(rr);
      return true;
    }
    if (n == "sin") { ret = Val::R(rSinCos(rarg(a[0])).first); return true; }
    if (n == "cos") { ret = Val::R(rSinCos(rarg(a[0])).second); return true; }
    if (n == "log2" || n == "log" || n == "exp" || n == "log10" || n == "exp2" || n == "cbrt") {
      RealRef x = force(rarg(a[0]));
      if (!x->rf.isConst()) throw Unsupported{"transcendental of a symbolic value"};
      double v = x->rf.num.constVal().get_d();
      double r = n == "log2" ? std::log2(v) : n == "log" ? std::log(v) : n == "exp" ? std::exp(v) : n == "exp2" ? std::exp2(v) : n == "cbrt" ? std::cbrt(v) : std::log10(v);
      ret = Val::R(mkQ(Q(r)));
      return true;
    }
    if (spec) throw SpecAbort();
    if (n == "malloc" || n == "calloc" || n == "aligned_alloc") {
      uint64_t sz = n == "malloc" ? needInt(a[0], "size") : n == "calloc" ? needInt(a[0], "size") * needInt(a[1], "size") : needInt(a[1], "size");
      if (sz > (1u << 28)) throw Violation{"huge-alloc", "allocation of " + std::to_string(sz) + " bytes", BoolRef()};
      ret = Val::I(mkptr(newObj(sz, "heap", true, n == "calloc"), 0));
      return true;
    }
    if (n == "realloc") {
      uint64_t p = needInt(a[0], "ptr"), sz = needInt(a[1], "size");
      if (sz > (1u << 28)) throw Violation{"huge-alloc", "allocation", BoolRef()};
      uint32_t id = newObj(sz, "heap", true, false);
      if (p) {
        uint64_t off;
        Obj *o = getObj(p, 0, off, false, "realloc");
        if (off || !o->heap) throw Violation{"bad-free", "realloc of a non-heap pointer", BoolRef()};
        copyMem(mkptr(id, 0), p, std::min<uint64_t>(sz, o->size));
        st->objs[p >> 32].reset();
      }
      ret = Val::I(mkptr(id, 0));
      return true;
    }
    if (n == "free") {
      uint64_t p = needInt(a[0], "ptr");
      if (!p) return true;
      uint64_t off;
      Obj *o = getObj(p, 0, off, false, "free");
      if (off || !o->heap) throw Violation{"bad-free", "free of a non-heap pointer", BoolRef()};
      st->objs[p >> 32].reset();
      return true;
    }
    if (n == "memcpy" || n == "memmove") { copyMem(needInt(a[0], "addr"), needInt(a[1], "addr"), needInt(a[2], "len")); ret = a[0]; return true; }
    if (n == "memcmp" || n == "bcmp") {
      uint64_t p = needInt(a[0], "addr"), q = needInt(a[1], "addr"), len = needInt(a[2], "len"); int r = 0;
      for (uint64_t i = 0; i < len && !r; i++) {
        Val x = load(p + i, 1, false), y = load(q + i, 1, false);
        r = (int)(needInt(x, "byte") & 255) - (int)(needInt(y, "byte") & 255);
      }
      ret = Val::I(mask((uint64_t)(int64_t)r, 32));
      return true;
    }
    if (n == "memset") { setMem(needInt(a[0], "addr"), needInt(a[1], "byte"), needInt(a[2], "len")); ret = a[0]; return true; }
    if (n == "printf" || n == "fprintf" || n == "puts" || n == "putchar" || n == "fputs" || n == "fputc" || n == "fwrite" || n == "fflush" || n == "putc" || n == "vprintf" || n == "perror") { ret = Val::I(1); return true; }
    if (n == "abort" || n == "exit" || n == "_exit" || n == "__assert_fail") throw Violation{"abort", n + " called", BoolRef()};
    if (n == "abs" || n == "labs") { unsigned w = bitw(d.I->getType()); int64_t x = sext(needInt(a[0], "abs"), w); ret = Val::I(mask(x < 0 ? -x : x, w)); return true; }
    if (n == "lround") {}
    // ---- harness API
    if (n == "rs_real") {
      std::string nm = cstr(a[0].i);
      // stable variable per (name, occurrence index)
      int occ = 0;
      for (auto &x : st->inputs) if (x.kind == 'r' && x.name == nm) occ++;
      std::string key = occ ? nm + "#" + std::to_string(occ) : nm;
      unsigned v = inputVar(key);
      st->inputs.push_back({'r', nm, (int)v, 0});
      ret = Val::R(mkRF(rfVar(v)));
      return true;
    }
    if (n == "rs_int") {
      std::string nm = cstr(a[0].i);
      int64_t lo = sext(needInt(a[1], "lo"), 32), hi = sext(needInt(a[2], "hi"), 32);
      if (lo > hi) throw PathEnd{"empty"};
      int64_t pick;
      if (st->choice != -1) { pick = st->choice - (1ll << 40); st->choice = -1; }
      else {
        for (int64_t k = hi; k > lo; k--) {
          StateP c(new State(*st));
          c->choice = k + (1ll << 40);
          pend.push_back({std::move(c), BoolRef(), depth});
          nforks++;
        }
        pick = lo;
        if (hi > lo) { S->push(); depth++; }
      }
      st->inputs.push_back({'i', nm, -1, pick});
      ret = Val::I((uint32_t)pick);
      return true;
    }
    if (n == "rs_sint") {
      std::string nm = cstr(a[0].i);
      int64_t lo = sext(needInt(a[1], "lo"), 32), hi = sext(needInt(a[2], "hi"), 32);
      int occ = 0;
      for (auto &x : st->inputs) if (x.kind == 'i' && x.var >= 0 && x.name == nm) occ++;
      unsigned v = inputVar("i:" + nm + "#" + std::to_string(occ));
      VARS[v].isInt = true;
      RealRef r = mkRF(rfVar(v));
      st->inputs.push_back({'i', nm, (int)v, lo});
      addPC(cmpExpand(GE, r, mkQ(Q((long)lo))));
      addPC(cmpExpand(LE, r, mkQ(Q((long)hi))));
      ret = Val::SI(r);
      return true;
    }
    if (n == "rs_param") {
      std::string nm = cstr(a[0].i);
      auto it = params.find(nm);
      if (it == params.end()) ret = Val::I(mask(needInt(a[1], "default"), 32));
      else ret = Val::I(mask(it->second, 32));
      return true;
    }
    if (n == "rs_assume") {
      BoolRef b = a[0].k == Val::INT ? mkConst(a[0].i != 0) : asBool(a[0]);
      b = expand(b);
      int q = evalQuick(b);
      if (q == 1) return true;
      if (q == 0) throw PathEnd{"assume"};
      if (check(zbool(b)) == z3::unsat) throw PathEnd{"assume"};
      addPC(b);
      return true;
    }
    if (n == "rs_assert") {
      BoolRef b = a[0].k == Val::INT ? mkConst(a[0].i != 0) : asBool(a[0]);
      doAssert(b, cstr(a[1].i));
      return true;
    }
    if (n == "rs_eq") { doEq(a[0], a[1], cstr(a[2].i), EQ); return true; }
    if (n == "rs_le") { doEq(a[0], a[1], cstr(a[2].i), LE); return true; }
    if (n == "rs_lt") { doEq(a[0], a[1], cstr(a[2].i), LT); return true; }
    if (n == "rs_reach") { reach[cstr(a[0].i)]++; return true; }
    if (n == "rs_same") {  // 1 iff identical for every value of the inputs on this path (normal form)
      RealRef x = force(rarg(a[0])), y = force(rarg(a[1]));
      if (x->rf.den == y->rf.den) { ret = Val::I(peq(x->rf.num, y->rf.num)); return true; }
      if (x->rf.isConst() && y->rf.isConst()) { ret = Val::I(0); return true; }
      RF df = rfAdd(x->rf, y->rf, -1);
      ret = Val::I(df.num.zero());
      return true;
    }
    if (n == "rs_live_heap") {
      uint64_t c = 0;
      for (auto &o : st->objs) if (o && o->heap) c++;
      ret = Val::I(c);
      return true;
    }
    if (n == "rs_is_native") { ret = Val::I(0); return true; }
    if (n == "rs_quiet") { return true; }
    if (n == "rs_debug") {
      RealRef x = force(rarg(a[1]));
      fprintf(stderr, "DEBUG %s = %s\n", cstr(a[0].i).c_str(), rfstr(x->rf).c_str());
      return true;
    }
    return false;
  }
  std::map<std::string, unsigned> inVars;
  unsigned inputVar(const std::string &k) {
    auto it = inVars.find(k);
    if (it != inVars.end()) return it->second;
    return inVars[k] = newVar(k, 0);
  }

  void pushFrame(const Function *F, std::vector<Val> args, int retReg) {
    if (st->fr.size() > 400) throw Violation{"stack-overflow", "call depth exceeded", BoolRef()};
    FnInfo *fi = getFn(F);
    Frame f;
    f.fn = fi;
    f.regs.resize(fi->nregs);
    f.retReg = retReg;
    unsigned i = 0;
    for (auto &a : F->args()) {
      if (i >= args.size()) break;
      if (a.hasByValAttr() && args[i].k == Val::INT) {
        uint64_t sz = DL->getTypeAllocSize(a.getParamByValType());
        uint32_t id = newObj(sz, "byval", false, false);
        copyMem(mkptr(id, 0), args[i].i, sz);
        args[i] = Val::I(mkptr(id, 0));
        f.allocas.push_back(id);
      }
      f.regs[i] = args[i];
      i++;
    }
    st->fr.push_back(std::move(f));
  }
  void jump(Frame &f, int target) {
    f.prev = f.bb;
    f.bb = target;
    f.pc = 0;
    DBlock &b = f.fn->blocks[target];
    if (b.nphi) {
      std::vector<Val> vals(b.nphi);
      const BasicBlock *pb = f.fn->blocks[f.prev].bb;
      for (unsigned i = 0; i < b.nphi; i++) {
        auto *phi = cast<PHINode>(b.ins[i].I);
        int k = phi->getBasicBlockIndex(pb);
        vals[i] = get(b.ins[i].ops[k]);
      }
      for (unsigned i = 0; i < b.nphi; i++) f.regs[b.ins[i].dst] = vals[i];
      f.pc = b.nphi;
    }
  }
  bool simpleSide(const BasicBlock *bb, const BasicBlock *pred) {
    if (bb->getSinglePredecessor() != pred) return false;
    if (!bb->getSingleSuccessor()) return false;
    if (bb->size() > 24) return false;
    if (isa<PHINode>(bb->front())) return false;
    for (auto &I : *bb) {
      switch (I.getOpcode()) {
        case Instruction::Load: case Instruction::Store: case Instruction::GetElementPtr: case Instruction::FAdd: case Instruction::FSub:
        case Instruction::FMul: case Instruction::FDiv: case Instruction::FNeg: case Instruction::FCmp: case Instruction::ICmp: case Instruction::Select:
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SExt: case Instruction::ZExt: case Instruction::Trunc:
        case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::SIToFP: case Instruction::SRem: case Instruction::SDiv: case Instruction::URem: case Instruction::UDiv:
        case Instruction::Br: case Instruction::BitCast: break;
        case Instruction::Call: {
          auto *cb = cast<CallBase>(&I);
          if (isa<DbgInfoIntrinsic>(I)) break;
          auto *f = cb->getCalledFunction();
          if (f && (f->getName() == "fabs" || f->getName().starts_with("llvm.fabs") || f->getName().starts_with("llvm.fmuladd") || f->getName().starts_with("llvm.lifetime"))) break;
          return false;
        }
        default: return false;
      }
    }
    return true;
  }
  bool ifConvert(Frame &f, const BranchInst *br, const BoolRef &c) {
    const BasicBlock *cur = br->getParent(), *T = br->getSuccessor(0), *F = br->getSuccessor(1), *J = nullptr;
    bool sT = false, sF = false;
    if (simpleSide(T, cur) && T->getSingleSuccessor() == F) { sT = true; J = F; }
    else if (simpleSide(F, cur) && F->getSingleSuccessor() == T) { sF = true; J = T; }
    else if (simpleSide(T, cur) && simpleSide(F, cur) && T->getSingleSuccessor() == F->getSingleSuccessor()) { sT = sF = true; J = T->getSingleSuccessor(); }
    else return false;
    std::vector<SpecStore> stores[2];
    int savBB = f.bb;
    unsigned savPC = f.pc;
    bool ok = true;
    size_t fi = st->fr.size() - 1;
    spec = true;
    try {
      for (int side = 0; side < 2; side++) {
        specStores.clear();
        if ((side == 0 && sT) || (side == 1 && sF)) {
          Frame &fr = st->fr[fi];
          fr.bb = fr.fn->bidx[side == 0 ? T : F];
          DBlock &b = fr.fn->blocks[fr.bb];
          for (unsigned k = 0; k + 1 < b.ins.size(); k++) { fr.pc = k; exec(b.ins[k]); }
        }
        stores[side] = specStores;
      }
    } catch (SpecAbort &) { ok = false; }
    catch (Violation &) { ok = false; }
    spec = false;
    specStores.clear();
    Frame &fr = st->fr[fi];
    fr.bb = savBB;
    fr.pc = savPC;
    if (!ok) return false;
    // merge stores
    struct MS { uint64_t addr; unsigned sz; Val v; bool real; };
    std::vector<MS> ms;
    auto findS = [&](std::vector<SpecStore> &v, uint64_t addr, unsigned sz, int &res) -> Val * {
      for (auto &s : v) {
        if (s.addr == addr && s.sz == sz) return &s.v;
        if (addr < s.addr + s.sz && s.addr < addr + sz) res = -1;
      }
      return nullptr;
    };
    for (int side = 0; side < 2; side++)
      for (auto &s : stores[side]) {
        int bad = 0;
        Val *o = findS(stores[1 - side], s.addr, s.sz, bad);
        if (bad) return false;
        if (o && side == 1) continue;
        Val old;
        if (o) old = *o;
        else { try { old = load(s.addr, s.sz, s.real); } catch (Unsupported &) { return false; } }
        Val tv = side == 0 ? s.v : old, fv = side == 0 ? old : s.v;
        if (tv.k == Val::REAL && fv.k == Val::REAL) ms.push_back({s.addr, s.sz, Val::R(mkSelect(c, tv.real(), fv.real())), s.real});
        else if (tv.k == Val::INT && fv.k == Val::INT && tv.i == fv.i) ms.push_back({s.addr, s.sz, tv, s.real});
        else return false;
      }
    // phis
    DBlock &jb = fr.fn->blocks[fr.fn->bidx[J]];
    std::vector<Val> pv(jb.nphi);
    const BasicBlock *pT = sT ? T : cur, *pF = sF ? F : cur;
    for (unsigned i = 0; i < jb.nphi; i++) {
      auto *phi = cast<PHINode>(jb.ins[i].I);
      Val a = get(jb.ins[i].ops[phi->getBasicBlockIndex(pT)]), b = get(jb.ins[i].ops[phi->getBasicBlockIndex(pF)]);
      if (a.k == Val::REAL && b.k == Val::REAL) pv[i] = Val::R(mkSelect(c, a.real(), b.real()));
      else if (a.k == Val::INT && b.k == Val::INT && a.i == b.i) pv[i] = a;
      else if (a.k == Val::UNDEF && b.k == Val::UNDEF) pv[i] = a;
      else return false;
    }
    for (auto &m : ms) store(m.addr, m.sz, m.v, m.real);
    for (unsigned i = 0; i < jb.nphi; i++) fr.regs[jb.ins[i].dst] = pv[i];
    fr.prev = savBB;
    fr.bb = fr.fn->bidx[J];
    fr.pc = jb.nphi;
    return true;
  }

  // executes one (non-control) instruction; control handled in step()
  void exec(const DInst &d) {
    Frame &f = st->fr.back();
    auto set = [&](const Val &v) { f.regs[d.dst] = v; };
    switch (d.op) {
      case Instruction::Alloca: {
        auto *ai = cast<AllocaInst>(d.I);
        uint64_t n = needInt(get(d.ops[0]), "alloca size");
        if (ai->getArraySize()->getType()->getIntegerBitWidth() == 32) n = (uint32_t)n;
        uint64_t sz = DL->getTypeAllocSize(ai->getAllocatedType());
        if (n > (1ull << 26) || n * sz > (1ull << 28)) throw Violation{"stack-overflow", "huge or negative stack array (" + std::to_string((int64_t)n) + " elements)", BoolRef()};
        uint32_t id = newObj(n * sz, ai->getName().str(), false, false);
        f.allocas.push_back(id);
        set(Val::I(mkptr(id, 0)));
        return;
      }
      case Instruction::Load: {
        uint64_t p = needInt(get(d.ops[0]), "address");
        Type *t = d.I->getType();
        if (t->isAggregateType() || t->isVectorTy()) throw Unsupported{"aggregate load"};
        Val v = load(p, d.width, d.isReal);
        if (v.k == Val::INT && t->isIntegerTy() && t->getIntegerBitWidth() % 8) v.i = mask(v.i, t->getIntegerBitWidth());
        set(v);
        return;
      }
      case Instruction::Store: {
        uint64_t p = needInt(get(d.ops[1]), "address");
        Type *t = d.I->getOperand(0)->getType();
        if (t->isAggregateType() || t->isVectorTy()) throw Unsupported{"aggregate store"};
        store(p, d.width, get(d.ops[0]), d.isReal);
        return;
      }
      case Instruction::GetElementPtr: {
        int64_t o = d.aux;
        const Val &b = get(d.ops[0]);
        if (b.k == Val::UNDEF) { set(b); return; }
        for (auto &g : d.gep) {
          const Val &iv = get(d.ops[g.second]);
          uint64_t x = needInt(iv, "array index");
          // index operand width
          unsigned w = 64;
          // operands beyond 0 correspond to variable indices
          w = idxWidth(d, g.second);
          o += sext(x, w) * g.first;
        }
        set(Val::I(b.i + o));
        return;
      }
      case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::SDiv: case Instruction::UDiv: case Instruction::SRem: case Instruction::URem:
      case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
        const Val &a = get(d.ops[0]), &b = get(d.ops[1]);
        unsigned w = d.width;
        if (w == 1 && (a.k == Val::COND || b.k == Val::COND) && a.k != Val::UNDEF && b.k != Val::UNDEF) {
          BoolRef x = asBool(a), y = asBool(b);
          if (d.op == Instruction::And) { set(Val::B(mkNary(BoolE::AND, {x, y}))); return; }
          if (d.op == Instruction::Or) { set(Val::B(mkNary(BoolE::OR, {x, y}))); return; }
          if (d.op == Instruction::Xor) {
            if (y->k == BoolE::CONST) { set(Val::B(y->c ? mkNot(x) : x)); return; }
            if (x->k == BoolE::CONST) { set(Val::B(x->c ? mkNot(y) : y)); return; }
            BoolRef nx = mkNot(x), ny = mkNot(y);
            set(Val::B(mkNary(BoolE::OR, {mkNary(BoolE::AND, {x, ny}), mkNary(BoolE::AND, {nx, y})})));
            return;
          }
        }
        if (d.op == Instruction::Xor && (a.k == Val::COND) && b.k == Val::INT && b.i == 1) { set(Val::B(mkNot(a.cond()))); return; }
        if ((d.op == Instruction::And) && a.k == Val::COND && b.k == Val::COND) { set(Val::B(mkNary(BoolE::AND, {a.cond(), b.cond()}))); return; }
        if ((d.op == Instruction::And) && a.k == Val::COND && b.k == Val::INT) { set(b.i & 1 ? a : Val::I(0)); return; }
        if ((d.op == Instruction::Or) && a.k == Val::COND && b.k == Val::COND) { set(Val::B(mkNary(BoolE::OR, {a.cond(), b.cond()}))); return; }
        if (a.k == Val::UNDEF || b.k == Val::UNDEF) { set(Val()); return; }
        if ((d.op == Instruction::Add || d.op == Instruction::Sub) && w >= 32 && (a.k == Val::SINT || b.k == Val::SINT) && (a.k == Val::INT || b.k == Val::INT) && !(d.op == Instruction::Sub && b.k == Val::SINT)) {
          RealRef r = mkRF(rfAdd(sireal(a, w)->rf, sireal(b, w)->rf, d.op == Instruction::Add ? 1 : -1));
          if (w == 32) {
            BoolRef fits = mkNary(BoolE::AND, {cmpExpand(GE, r, mkQ(Q(-2147483648L))), cmpExpand(LE, r, mkQ(Q(2147483647L)))});
            if (!decideOrFork(fits)) {
              if (cast<OverflowingBinaryOperator>(d.I)->hasNoSignedWrap()) throw Violation{"int-overflow", "signed integer overflow", BoolRef()};
              r = mkRF(rfAdd(r->rf, rfConst(Q(4294967296L)), decideOrFork(cmpExpand(GE, r, mkQ(Q(0)))) ? -1 : 1));
            }
          }
          set(Val::SI(r));
          return;
        }
        uint64_t x = mask(needInt(a, "operand"), w), y = mask(needInt(b, "operand"), w), r = 0;
        int64_t sx = sext(x, w), sy = sext(y, w);
        switch (d.op) {
          case Instruction::Add: r = x + y; ovf(d, sx, sy, '+', w); break;
          case Instruction::Sub: r = x - y; ovf(d, sx, sy, '-', w); break;
          case Instruction::Mul: r = x * y; ovf(d, sx, sy, '*', w); break;
          case Instruction::SDiv: case Instruction::SRem: case Instruction::UDiv: case Instruction::URem:
            if (y == 0) { if (spec) throw SpecAbort(); throw Violation{"int-div-zero", "integer division by zero", BoolRef()}; }
            if (d.op == Instruction::SDiv) r = sx / sy;
            else if (d.op == Instruction::SRem) r = sx % sy;
            else if (d.op == Instruction::UDiv) r = x / y;
            else r = x % y;
            break;
          case Instruction::And: r = x & y; break;
          case Instruction::Or: r = x | y; break;
          case Instruction::Xor: r = x ^ y; break;
          case Instruction::Shl: r = y < 64 ? x << y : 0; break;
          case Instruction::LShr: r = y < 64 ? x >> y : 0; break;
          case Instruction::AShr: r = sx >> (y < 63 ? y : 63); break;
        }
        set(Val::I(mask(r, w)));
        return;
      }
      case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
        const Val &a = get(d.ops[0]), &b = get(d.ops[1]);
        if (a.k == Val::UNDEF || b.k == Val::UNDEF) { set(Val()); return; }
        RealRef r;
        switch (d.op) {
          case Instruction::FAdd: r = rAdd(a.real(), b.real(), 1); break;
          case Instruction::FSub: r = rAdd(a.real(), b.real(), -1); break;
          case Instruction::FMul: r = rMul(a.real(), b.real()); break;
          default: r = rDiv(a.real(), b.real());
        }
        set(Val::R(r));
        return;
      }
      case Instruction::FNeg: {
        const Val &a = get(d.ops[0]);
        if (a.k == Val::UNDEF) { set(Val()); return; }
        set(Val::R(mkRF(rfMul(force(a.real())->rf, rfConst(-1)))));
        return;
      }
      case Instruction::FRem: throw Unsupported{"frem"};
      case Instruction::FCmp: {
        const Val &a = get(d.ops[0]), &b = get(d.ops[1]);
        auto p = cast<FCmpInst>(d.I)->getPredicate();
        if (p == CmpInst::FCMP_TRUE) { set(Val::I(1)); return; }
        if (p == CmpInst::FCMP_FALSE) { set(Val::I(0)); return; }
        if (a.k == Val::UNDEF || b.k == Val::UNDEF) { set(Val()); return; }
        Pred q;
        switch (p) {
          case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: q = LT; break;
          case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: q = LE; break;
          case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: q = GT; break;
          case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: q = GE; break;
          case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: q = EQ; break;
          case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: q = NE; break;
          case CmpInst::FCMP_ORD: set(Val::I(1)); return;
          default: set(Val::I(0)); return;
        }
        set(mkCmp(q, a.real(), b.real()));
        return;
      }
      case Instruction::ICmp: {
        const Val &a = get(d.ops[0]), &b = get(d.ops[1]);
        auto p = cast<ICmpInst>(d.I)->getPredicate();
        unsigned w = bitw(d.I->getOperand(0)->getType());
        if (a.k == Val::COND && b.k == Val::INT && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE) && b.i <= 1) {
          bool want = (p == CmpInst::ICMP_EQ) == (b.i == 1);
          set(Val::B(want ? a.cond() : mkNot(a.cond())));
          return;
        }
        if (a.k == Val::UNDEF || b.k == Val::UNDEF) { set(Val()); return; }
        if ((a.k == Val::SINT || b.k == Val::SINT) && (a.k == Val::INT || a.k == Val::SINT) && (b.k == Val::INT || b.k == Val::SINT) && w >= 32) {
          RealRef x = sireal(a, w), y = sireal(b, w);
          Pred q = p == CmpInst::ICMP_EQ ? EQ : p == CmpInst::ICMP_NE ? NE : p == CmpInst::ICMP_SLT || p == CmpInst::ICMP_ULT ? LT : p == CmpInst::ICMP_SLE || p == CmpInst::ICMP_ULE ? LE : p == CmpInst::ICMP_SGT || p == CmpInst::ICMP_UGT ? GT : GE;
          if (CmpInst::isUnsigned(p)) { /* negative numbers are the large ones */
            BoolRef nx = cmpExpand(LT, x, mkQ(Q(0))), ny = cmpExpand(LT, y, mkQ(Q(0))), px = mkNot(nx), py = mkNot(ny);
            BoolRef same = mkNary(BoolE::OR, {mkNary(BoolE::AND, {nx, ny}), mkNary(BoolE::AND, {px, py})});
            BoolRef mixed = (q == LT || q == LE) ? mkNary(BoolE::AND, {px, ny}) : mkNary(BoolE::AND, {nx, py});
            set(Val::B(mkNary(BoolE::OR, {mixed, mkNary(BoolE::AND, {same, sicmp(q, x, y)})})));
          } else set(Val::B(sicmp(q, x, y)));
          return;
        }
        if (a.k == Val::REAL && b.k == Val::INT && ((p == CmpInst::ICMP_SLT && b.i == 0) || (p == CmpInst::ICMP_SGT && mask(b.i, w) == mask(~0ull, w)))) {  // the sign bit
          BoolRef neg = cmpExpand(LT, a.real(), mkQ(Q(0)));
          set(Val::B(p == CmpInst::ICMP_SLT ? neg : mkNot(neg)));
          return;
        }
        uint64_t x = mask(needInt(a, "comparison"), w), y = mask(needInt(b, "comparison"), w);
        int64_t sx = sext(x, w), sy = sext(y, w);
        bool r = false;
        switch (p) {
          case CmpInst::ICMP_EQ: r = x == y; break;
          case CmpInst::ICMP_NE: r = x != y; break;
          case CmpInst::ICMP_SLT: r = sx < sy; break;
          case CmpInst::ICMP_SLE: r = sx <= sy; break;
          case CmpInst::ICMP_SGT: r = sx > sy; break;
          case CmpInst::ICMP_SGE: r = sx >= sy; break;
          case CmpInst::ICMP_ULT: r = x < y; break;
          case CmpInst::ICMP_ULE: r = x <= y; break;
          case CmpInst::ICMP_UGT: r = x > y; break;
          case CmpInst::ICMP_UGE: r = x >= y; break;
          default: break;
        }
        set(Val::I(r));
        return;
      }
      case Instruction::ZExt: {
        const Val &a = get(d.ops[0]);
        if (a.k == Val::SINT && !decideOrFork(cmpExpand(GE, a.real(), mkQ(Q(0))))) { set(Val::I(mask(concretize(a.real()), d.width))); return; }
        set(a);
        return;
      }
      case Instruction::SExt: {
        const Val &a = get(d.ops[0]);
        if (a.k == Val::COND) { set(Val::I(decideOrFork(a.cond()) ? mask(~0ull, bitw(d.I->getType())) : 0)); return; }
        if (a.k != Val::INT) { set(a); return; }
        set(Val::I(mask(sext(a.i, d.width), bitw(d.I->getType()))));
        return;
      }
      case Instruction::Trunc: {
        const Val &a = get(d.ops[0]);
        if (a.k != Val::INT) { if (a.k == Val::REAL) throw Unsupported{"trunc of real bits"}; set(a); return; }
        set(Val::I(mask(a.i, bitw(d.I->getType()))));
        return;
      }
      case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Freeze: case Instruction::FPExt: case Instruction::FPTrunc: {
        Val a = get(d.ops[0]);
        if (a.k == Val::INT && isRealTy(d.I->getType())) {
          double x; uint64_t u = a.i; memcpy(&x, &u, 8);
          a = Val::R(mkQ(ratFromDouble(x)));
        }
        if (d.I->getOpcode() == Instruction::FPTrunc && a.k == Val::REAL && !singlePrecision) a = Val::R(rTrunc(a.real()));
        set(a);
        return;
      }
      case Instruction::SIToFP: { const Val &a = get(d.ops[0]); if (a.k == Val::UNDEF) { set(a); return; } uint64_t x = needInt(a, "conversion"); set(Val::R(mkQ(Q((long)sext(x, d.width))))); return; }
      case Instruction::UIToFP: { const Val &a = get(d.ops[0]); if (a.k == Val::UNDEF) { set(a); return; } uint64_t x = needInt(a, "conversion"); set(Val::R(mkQ(Q((unsigned long)mask(x, d.width))))); return; }
      case Instruction::FPToSI: case Instruction::FPToUI: {
        const Val &a = get(d.ops[0]);
        if (a.k == Val::UNDEF) { if (spec) throw SpecAbort(); throw Violation{"uninit", "uninitialised or non-finite real converted to int", BoolRef()}; }
        RealRef x = force(a.real());
        bool neg = decideOrFork(signRel(x->rf, LT));
        mpz_class k = rFloor(x, neg);
        unsigned w = bitw(d.I->getType());
        if (w <= 64 && (k >= mpz_class(1) << (w - 1) || k < -(mpz_class(1) << (w - 1)))) throw Violation{"fp-int-overflow", "float to int conversion out of range", BoolRef()};
        set(Val::I(mask((uint64_t)k.get_si(), w)));
        return;
      }
      case Instruction::Select: {
        const Val &c = get(d.ops[0]);
        if (c.k == Val::INT) { set(get(d.ops[(c.i & 1) ? 1 : 2])); return; }
        BoolRef b = asBool(c);
        const Val &x = get(d.ops[1]), &y = get(d.ops[2]);
        if (x.k == Val::REAL && y.k == Val::REAL) {
          int q = evalQuick(b);
          if (q != 2) { set(q ? x : y); return; }
          set(Val::R(mkSelect(b, x.real(), y.real())));
          return;
        }
        if ((x.k == Val::COND || x.k == Val::INT) && (y.k == Val::COND || y.k == Val::INT) && bitw(d.I->getType()) == 1) {
          BoolRef bx = asBool(x), by = asBool(y);
          set(Val::B(mkNary(BoolE::OR, {mkNary(BoolE::AND, {b, bx}), mkNary(BoolE::AND, {mkNot(b), by})})));
          return;
        }
        if (x.k == Val::INT && y.k == Val::INT && x.i == y.i) { set(x); return; }
        if (x.k == Val::INT && y.k == Val::INT && x.i == 1 && y.i == 0) { set(Val::B(b)); return; }
        if (x.k == Val::INT && y.k == Val::INT && x.i == 0 && y.i == 1) { set(Val::B(mkNot(b))); return; }
        set(decideOrFork(b) ? x : y);
        return;
      }
      case Instruction::ExtractValue: {
        auto *ev = cast<ExtractValueInst>(d.I);
        Val v = get(d.ops[0]);
        for (unsigned i : ev->indices()) { if (v.k == Val::UNDEF) break; v = Val(static_cast<Agg *>(v.n.p)->v[i]); }
        set(v);
        return;
      }
      case Instruction::InsertValue: {
        auto *iv = cast<InsertValueInst>(d.I);
        if (iv->getNumIndices() != 1) throw Unsupported{"nested insertvalue"};
        Type *t = d.I->getType();
        unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
        Val a = get(d.ops[0]);
        Agg *na = new Agg;
        if (a.k == Val::AGG) na->v = static_cast<Agg *>(a.n.p)->v;
        else na->v.resize(n);
        na->v[iv->getIndices()[0]] = get(d.ops[1]);
        Val r; r.k = Val::AGG; r.n = IP<Node>(na);
        set(r);
        return;
      }
      case Instruction::Call: {
        auto *cb = cast<CallBase>(d.I);
        const Val &cv = get(d.ops.back());
        const Function *cf = cb->getCalledFunction();
        if (!cf) {
          if (cv.k == Val::INT && (cv.i >> 32) >= 0xf0000000u) cf = fptr[(cv.i >> 32) - 0xf0000000u];
          else throw Unsupported{"indirect call"};
        }
        std::vector<Val> args;
        for (size_t i = 0; i + 1 < d.ops.size(); i++) args.push_back(get(d.ops[i]));
        Val ret;
        bool isDef = !cf->isDeclaration();
        if (!isDef) {
          if (!external(d, cf->getName().str(), args, ret)) throw Unsupported{"external function " + cf->getName().str()};
          if (d.dst >= 0) st->fr.back().regs[d.dst] = ret;
          return;
        }
        if (spec) throw SpecAbort();
        pushFrame(cf, std::move(args), d.dst);
        return;
      }
      default: {
        std::string s;
        raw_string_ostream os(s);
        d.I->print(os);
        throw Unsupported{"instruction " + s};
      }
    }
  }
  unsigned idxWidth(const DInst &d, int k) {
    auto *g = cast<GetElementPtrInst>(d.I);
    int c = 0;
    for (auto it = g->idx_begin(); it != g->idx_end(); ++it) {
      if (isa<ConstantInt>(it->get())) continue;
      c++;
      if (c == k) return bitw(it->get()->getType());
    }
    return 64;
  }
  void ovf(const DInst &d, int64_t a, int64_t b, char op, unsigned w) {
    auto *o = cast<OverflowingBinaryOperator>(d.I);
    if (!o->hasNoSignedWrap() || w > 32) return;
    int64_t r = op == '+' ? a + b : op == '-' ? a - b : a * b;
    int64_t lim = 1ll << (w - 1);
    if (r >= lim || r < -lim) { if (spec) throw SpecAbort(); throw Violation{"int-overflow", "signed integer overflow", BoolRef()}; }
  }
  void step() {
    Frame &f = st->fr.back();
    DBlock &b = f.fn->blocks[f.bb];
    const DInst &d = b.ins[f.pc];
    f.fn->count++;
    switch (d.op) {
      case Instruction::Br: {
        auto *br = cast<BranchInst>(d.I);
        if (br->isUnconditional()) { jump(f, f.fn->bidx[br->getSuccessor(0)]); return; }
        const Val &c = get(d.ops[0]);
        bool t;
        if (c.k == Val::INT) t = c.i & 1;
        else {
          BoolRef bb = asBool(c);
          int q = evalQuick(bb);
          if (q != 2) t = q;
          else {
            if (ifConvert(f, br, bb)) return;
            t = decideOrFork(bb);
          }
        }
        jump(st->fr.back(), f.fn->bidx[br->getSuccessor(t ? 0 : 1)]);
        return;
      }
      case Instruction::Switch: {
        auto *sw = cast<SwitchInst>(d.I);
        uint64_t x = needInt(get(d.ops[0]), "switch");
        const BasicBlock *t = sw->getDefaultDest();
        for (auto &cs : sw->cases()) if (cs.getCaseValue()->getZExtValue() == x) { t = cs.getCaseSuccessor(); break; }
        jump(f, f.fn->bidx[t]);
        return;
      }
      case Instruction::Ret: {
        Val r;
        if (d.ops.size()) r = get(d.ops[0]);
        int rr = f.retReg;
        for (uint32_t id : f.allocas) st->objs[id].reset();
        st->fr.pop_back();
        if (st->fr.empty()) throw PathEnd{"done"};
        if (rr >= 0) st->fr.back().regs[rr] = r;
        if (rr != -2) st->fr.back().pc++;   // -2: the history, which ran before the entry's first instruction
        return;
      }
      case Instruction::Unreachable: throw Violation{"unreachable", "unreachable executed", BoolRef()};
      case Instruction::Call: {
        size_t depthBefore = st->fr.size();
        exec(d);
        if (st->fr.size() == depthBefore) st->fr.back().pc++;
        return;
      }
      default: exec(d); st->fr.back().pc++; return;
    }
  }

  // ---------------------------------------------------------------- driver
  void initGlobals() {
    st->objs.push_back(nullptr);
    for (auto &g : M->globals()) {
      uint64_t sz = g.hasInitializer() || g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
      gid[&g] = newObj(sz, g.getName().str(), false, true);
    }
    for (auto &g : M->globals())
      if (g.hasInitializer()) writeConst(mkptr(gid[&g], 0), g.getInitializer());
    for (auto &g : M->globals()) if (g.isConstant()) st->objs[gid[&g]]->constant = true;
  }
  void writeConst(uint64_t p, const Constant *c) {
    Type *t = c->getType();
    if (c->isNullValue()) return;
    if (isa<UndefValue>(c)) return;
    if (t->isStructTy() || t->isArrayTy()) {
      unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
      for (unsigned i = 0; i < n; i++) {
        uint64_t off = t->isStructTy() ? (uint64_t)DL->getStructLayout(cast<StructType>(t))->getElementOffset(i) : i * DL->getTypeAllocSize(t->getArrayElementType());
        writeConst(p + off, c->getAggregateElement(i));
      }
      return;
    }
    store(p, bytesOf(t), constVal(c), isRealTy(t));
  }
  std::vector<VRec> traces;
  size_t maxTraces = 5;
  uint64_t nextTrace = 0;
  bool timeUp() { return now() - t0 > tlimit; }
  void finishPath() {
    npaths++;
    if (st->cut) { nincon++; note = "a path with a far-away integer value was followed for one value only"; }
    if (!witness || (traces.size() < maxTraces && npaths >= nextTrace)) {
      std::map<unsigned, Q> m;
      int r = fullModel(BoolRef(), m, 3000);
      nextTrace = npaths * 4;
      if (r == 1) {
        witness = true;
        VRec t;
        fillInputs(t, m);
        traces.push_back(t);
      } else if (r == 0) npaths--;
    }
  }
  void run(const std::string &entry) {
    t0 = now();
    z3::solver s(z, z3::solver::simple());
    { z3::params p(z); p.set("timeout", 20000u); s.set(p); }
    S = &s;
    Function *F = M->getFunction(entry);
    if (!F) { endStatus = "error: no entry " + entry; return; }
    StateP s0(new State);
    st = s0.get();
    initGlobals();
    std::vector<Val> args;
    StateP cur = std::move(s0);
    pushFrame(F, args, -1);
    if (params.count("pre") && params["pre"])
      if (Function *P = M->getFunction("rs_prelude")) pushFrame(P, args, -2);
    while (true) {
      // run current
      bool alive = true;
      while (alive) {
        try {
          while (true) {
            if (++st->steps > maxSteps) throw Violation{"nontermination", "instruction budget per path exceeded (possible infinite loop)", BoolRef()};
            ntotal++;
            if ((ntotal & 0x3ff) == 0 && timeUp()) { endStatus = "timeout"; cut("time limit"); return; }
            step();
          }
        } catch (Retry &) {
          if (timeUp()) { endStatus = "timeout"; cut("time limit"); return; }
        } catch (PathEnd &e) {
          if (e.why == "done") finishPath();
          else if (e.why == "assertion") npaths++;
          alive = false;
        } catch (Violation &v) {
          report(v);
          alive = false;
        } catch (Unsupported &u) {
          nincon++;
          note = "unsupported: " + u.what + " at " + where();
          if (getenv("RSYM_DEBUG")) fprintf(stderr, "%s\n", note.c_str());
          candidate("unsupported", u.what);
          alive = false;
        }
      }
      if (viols.size() >= (size_t)maxViol) { endStatus = "stopped-at-violations"; return; }
      if (npaths >= maxPaths) { endStatus = "path-limit"; return; }
      if (pend.empty()) break;
      Pend p = std::move(pend.back());
      pend.pop_back();
      popTo(p.depth);
      cur = std::move(p.s);
      st = cur.get();
      S->push();
      depth++;
      if (p.c) addPC(p.c);
    }
  }
};

static std::string jesc(const std::string &s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if ((unsigned char)c < 32) o += ' ';
    else o += c;
  }
  return o;
}

int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: rsym file.bc entry [k=v]... [--out f] [--time s] [--steps n]\n"); return 2; }
  Engine E;
  std::string out;
  for (int i = 3; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--time") E.tlimit = atof(argv[++i]);
    else if (a == "--steps") E.maxSteps = strtoull(argv[++i], 0, 10);
    else if (a == "--viol") E.maxViol = atoi(argv[++i]);
    else if (a == "--single") singlePrecision = true;
    else if (a == "--seed") E.rngs ^= strtoull(argv[++i], 0, 10) * 0x9E3779B97F4A7C15ull;
    else {
      size_t p = a.find('=');
      if (p == std::string::npos) { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; }
      E.params[a.substr(0, p)] = atoll(a.substr(p + 1).c_str());
    }
  }
  SMDiagnostic err;
  E.M = parseIRFile(argv[1], err, E.ctx);
  if (!E.M) { fprintf(stderr, "cannot read %s\n", argv[1]); return 2; }
  E.DL = &E.M->getDataLayout();
  double t = now();
  std::string fatal;
  try { E.run(argv[2]); }
  catch (z3::exception &e) { fatal = std::string("z3: ") + e.msg(); }
  catch (Unsupported &u) { fatal = "unsupported: " + u.what; }
  catch (std::bad_alloc &) { fatal = "out of memory"; }
  std::ostringstream o;
  o << "{\"entry\":\"" << argv[2] << "\",\"status\":\"" << jesc(fatal.empty() ? E.endStatus : "error: " + fatal) << "\"";
  o << ",\"params\":{";
  bool first = true;
  for (auto &p : E.params) { o << (first ? "" : ",") << "\"" << p.first << "\":" << p.second; first = false; }
  o << "},\"paths\":" << E.npaths << ",\"forks\":" << E.nforks << ",\"instructions\":" << E.ntotal << ",\"asserts\":" << E.nasserts
    << ",\"asserts_z3\":" << E.nassertZ3 << ",\"queries\":" << E.nq + E.nqNL << ",\"nl_queries\":" << E.nqNL << ",\"solver_s\":" << E.tq + E.tNL
    << ",\"infeasible\":" << E.ninfeas << ",\"inconclusive\":" << E.nincon << ",\"witness\":" << (E.witness ? "true" : "false")
    << ",\"symbols\":" << E.inVars.size() << ",\"wall_s\":" << now() - t << ",\"note\":\"" << jesc(E.note) << "\"";
  o << ",\"functions\":{";
  first = true;
  for (auto &f : E.fns) if (f.second->repo && f.second->count) { o << (first ? "" : ",") << "\"" << f.first->getName().str() << "\":" << f.second->count; first = false; }
  o << "},\"reach\":{";
  first = true;
  for (auto &f : E.reach) { o << (first ? "" : ",") << "\"" << jesc(f.first) << "\":" << f.second; first = false; }
  o << "},\"sites\":{";
  first = true;
  for (auto &f : E.assertSites) { o << (first ? "" : ",") << "\"" << jesc(f.first) << "\":" << f.second; first = false; }
  o << "},\"violations\":[";
  first = true;
  for (auto &v : E.viols) {
    o << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":[";
    bool f2 = true;
    for (auto &in : v.in) { o << (f2 ? "" : ",") << "[\"" << in.first.kind << "\",\"" << jesc(in.first.name) << "\",\"" << in.second << "\"]"; f2 = false; }
    o << "],\"alts\":[";
    bool f3 = true;
    for (auto &al : v.alts) { o << (f3 ? "[" : ",["); f3 = false; for (size_t i = 0; i < al.size(); i++) o << (i ? "," : "") << "\"" << al[i] << "\""; o << "]"; }
    o << "]}";
    first = false;
  }
  o << "],\"traces\":[";
  first = true;
  for (auto &v : E.traces) {
    o << (first ? "[" : ",[");
    bool f2 = true;
    for (auto &in : v.in) { o << (f2 ? "" : ",") << "[\"" << in.first.kind << "\",\"" << jesc(in.first.name) << "\",\"" << in.second << "\"]"; f2 = false; }
    o << "]";
    first = false;
  }
  o << "],\"candidates\":[";
  first = true;
  for (auto &v : E.cands) {
    o << (first ? "" : ",") << "{\"kind\":\"" << jesc(v.kind) << "\",\"msg\":\"" << jesc(v.msg) << "\",\"where\":\"" << jesc(v.where) << "\",\"inputs\":[";
    bool f2 = true;
    for (auto &in : v.in) { o << (f2 ? "" : ",") << "[\"" << in.first.kind << "\",\"" << jesc(in.first.name) << "\",\"" << in.second << "\"]"; f2 = false; }
    o << "]}";
    first = false;
  }
  o << "]}";
  if (out.empty()) std::cout << o.str() << std::endl;
  else { std::ofstream of(out); of << o.str() << "\n"; }
  fflush(stdout);
  _exit(fatal.empty() ? 0 : 3);
}
