// vfsym: a symbolic executor for LLVM bitcode with Z3 (QF_BV) as the deciding solver.
//
// It executes the bitcode of /repo's real sources (compiled at -O0 on every run) together with a
// harness.  Harness inputs are symbolic; every branch whose outcome depends on them forks after the
// solver has said which sides are feasible; every memory access is checked against the object it may
// hit, with the solver asked for an address outside; every assertion is a solver query for its
// negation under the path condition.  All paths are explored: a run that ends with "complete": true
// has decided the harness' assertions for every value of its inputs.
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3.h>
#include <chrono>
#include <csignal>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <algorithm>
#include <cstring>
#include <sys/resource.h>

using namespace llvm;
typedef uint64_t u64;
static double now() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

// ------------------------------------------------------------------ expressions
static Z3_context Z;
static void z3err(Z3_context c, Z3_error_code e) { std::cerr << "vfsym: z3: " << Z3_get_error_msg(c, e) << "\n"; exit(4); }
struct E { // reference-counted Z3 term
  Z3_ast a = nullptr;
  E() {}
  E(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  E(const E &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  E(E &&o) noexcept : a(o.a) { o.a = nullptr; }
  E &operator=(const E &o) { if (o.a) Z3_inc_ref(Z, o.a); if (a) Z3_dec_ref(Z, a); a = o.a; return *this; }
  E &operator=(E &&o) noexcept { std::swap(a, o.a); return *this; }
  ~E() { if (a) Z3_dec_ref(Z, a); }
  explicit operator bool() const { return a != nullptr; }
};
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sx(u64 v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct Val { // w==1 symbolic terms have sort Bool, all others BitVec(w)
  unsigned w = 0;
  u64 c = 0;
  E s;
  std::shared_ptr<std::vector<Val>> agg;
  Val() {}
  Val(unsigned w_, u64 c_) : w(w_), c(c_ & mask(w_)) {}
  Val(unsigned w_, E e) : w(w_), s(std::move(e)) {}
  bool sym() const { return (bool)s; }
};
static Z3_sort bvsort(unsigned w) { static std::map<unsigned, Z3_sort> m; auto &r = m[w]; if (!r) { r = Z3_mk_bv_sort(Z, w); Z3_inc_ref(Z, Z3_sort_to_ast(Z, r)); } return r; }
static E term(const Val &v) {
  if (v.sym()) return v.s;
  if (v.w == 1) return E(v.c ? Z3_mk_true(Z) : Z3_mk_false(Z));
  return E(Z3_mk_unsigned_int64(Z, v.c, bvsort(v.w)));
}
static E bvterm(const Val &v) { // always BitVec
  if (v.w != 1) return term(v);
  if (!v.sym()) return E(Z3_mk_unsigned_int64(Z, v.c, bvsort(1)));
  E one(Z3_mk_unsigned_int64(Z, 1, bvsort(1))), zero(Z3_mk_unsigned_int64(Z, 0, bvsort(1)));
  return E(Z3_mk_ite(Z, v.s.a, one.a, zero.a));
}
static bool isnum(const E &e, u64 &v) {
  if (Z3_get_ast_kind(Z, e.a) != Z3_NUMERAL_AST) return false;
  return Z3_get_numeral_uint64(Z, e.a, (uint64_t *)&v);
}
static Val fromterm(unsigned w, E e, bool simp = true) { // e has Bool sort when w==1
  if (simp) e = E(Z3_simplify(Z, e.a));
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, e.a);
    if (b == Z3_L_TRUE) return Val(1, (u64)1);
    if (b == Z3_L_FALSE) return Val(1, (u64)0);
    return Val(1, e);
  }
  u64 v;
  if (isnum(e, v)) return Val(w, v);
  return Val(w, e);
}
static Val frombv(unsigned w, E e) { // e is a BitVec(w)
  if (w == 1) { E one(Z3_mk_unsigned_int64(Z, 1, bvsort(1))); return fromterm(1, E(Z3_mk_eq(Z, e.a, one.a))); }
  return fromterm(w, e);
}
static Val vnot(const Val &a) { return a.sym() ? fromterm(1, E(Z3_mk_not(Z, a.s.a))) : Val(1, (u64)!a.c); }
static Val vand1(const Val &a, const Val &b) {
  if (!a.sym()) return a.c ? b : a;
  if (!b.sym()) return b.c ? a : b;
  Z3_ast x[2] = {a.s.a, b.s.a};
  return fromterm(1, E(Z3_mk_and(Z, 2, x)));
}
static Val vor1(const Val &a, const Val &b) { return vnot(vand1(vnot(a), vnot(b))); }
static Val vite(const Val &c, const Val &a, const Val &b) {
  if (!c.sym()) return c.c ? a : b;
  if (!a.sym() && !b.sym() && a.c == b.c) return a;
  E ta = term(a), tb = term(b);
  if (ta.a == tb.a) return a;
  return fromterm(a.w, E(Z3_mk_ite(Z, c.s.a, ta.a, tb.a)), false);
}
static Val veq(const Val &a, const Val &b) {
  if (!a.sym() && !b.sym()) return Val(1, (u64)(a.c == b.c));
  E ta = term(a), tb = term(b);
  return fromterm(1, E(Z3_mk_eq(Z, ta.a, tb.a)));
}
static Val vzext(const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (!a.sym()) return Val(w, a.c);
  E t = bvterm(a);
  return fromterm(w, E(Z3_mk_zero_ext(Z, w - a.w, t.a)), false);
}
static Val vsext(const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (!a.sym()) return Val(w, (u64)sx(a.c, a.w));
  E t = bvterm(a);
  return fromterm(w, E(Z3_mk_sign_ext(Z, w - a.w, t.a)), false);
}
static Val vextract(const Val &a, unsigned lo, unsigned w) {
  if (lo == 0 && a.w == w) return a;
  if (!a.sym()) return Val(w, a.c >> lo);
  E t = bvterm(a);
  return frombv(w, E(Z3_mk_extract(Z, lo + w - 1, lo, t.a)));
}
static Val vconcat(const Val &hi, const Val &lo) {
  if (!hi.sym() && !lo.sym()) return Val(hi.w + lo.w, (hi.c << lo.w) | lo.c);
  E h = bvterm(hi), l = bvterm(lo);
  return fromterm(hi.w + lo.w, E(Z3_mk_concat(Z, h.a, l.a)), false);
}
struct EngineError { std::string msg; };
static Val vbin(unsigned op, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym()) {
    u64 x = a.c, y = b.c;
    switch (op) {
    case Instruction::Add: return Val(w, x + y);
    case Instruction::Sub: return Val(w, x - y);
    case Instruction::Mul: return Val(w, x * y);
    case Instruction::UDiv: return Val(w, x / y);
    case Instruction::URem: return Val(w, x % y);
    case Instruction::SDiv: if (sx(y, w) == -1) return Val(w, 0 - x); return Val(w, (u64)(sx(x, w) / sx(y, w)));
    case Instruction::SRem: if (sx(y, w) == -1) return Val(w, (u64)0); return Val(w, (u64)(sx(x, w) % sx(y, w)));
    case Instruction::Shl: return Val(w, y >= w ? 0 : x << y);
    case Instruction::LShr: return Val(w, y >= w ? 0 : x >> y);
    case Instruction::AShr: return Val(w, (u64)(sx(x, w) >> (y >= w ? w - 1 : y)));
    case Instruction::And: return Val(w, x & y);
    case Instruction::Or: return Val(w, x | y);
    case Instruction::Xor: return Val(w, x ^ y);
    }
  }
  if (w == 1) {
    switch (op) {
    case Instruction::And: return vand1(a, b);
    case Instruction::Or: return vor1(a, b);
    case Instruction::Xor: return vnot(veq(a, b));
    }
  }
  // cheap identities
  if (!b.sym()) {
    if (b.c == 0 && (op == Instruction::Add || op == Instruction::Sub || op == Instruction::Or || op == Instruction::Xor || op == Instruction::Shl || op == Instruction::LShr || op == Instruction::AShr)) return a;
    if (b.c == 1 && (op == Instruction::Mul || op == Instruction::UDiv || op == Instruction::SDiv)) return a;
    if (b.c == 0 && (op == Instruction::And || op == Instruction::Mul)) return b;
    if (b.c == mask(w) && op == Instruction::And) return a;
  }
  if (!a.sym()) {
    if (a.c == 0 && (op == Instruction::Add || op == Instruction::Or || op == Instruction::Xor)) return b;
    if (a.c == 0 && (op == Instruction::And || op == Instruction::Mul)) return a;
    if (a.c == 1 && op == Instruction::Mul) return b;
  }
  E x = bvterm(a), y = bvterm(b);
  Z3_ast r = nullptr;
  switch (op) {
  case Instruction::Add: r = Z3_mk_bvadd(Z, x.a, y.a); break;
  case Instruction::Sub: r = Z3_mk_bvsub(Z, x.a, y.a); break;
  case Instruction::Mul: r = Z3_mk_bvmul(Z, x.a, y.a); break;
  case Instruction::UDiv: r = Z3_mk_bvudiv(Z, x.a, y.a); break;
  case Instruction::URem: r = Z3_mk_bvurem(Z, x.a, y.a); break;
  case Instruction::SDiv: r = Z3_mk_bvsdiv(Z, x.a, y.a); break;
  case Instruction::SRem: r = Z3_mk_bvsrem(Z, x.a, y.a); break;
  case Instruction::Shl: r = Z3_mk_bvshl(Z, x.a, y.a); break;
  case Instruction::LShr: r = Z3_mk_bvlshr(Z, x.a, y.a); break;
  case Instruction::AShr: r = Z3_mk_bvashr(Z, x.a, y.a); break;
  case Instruction::And: r = Z3_mk_bvand(Z, x.a, y.a); break;
  case Instruction::Or: r = Z3_mk_bvor(Z, x.a, y.a); break;
  case Instruction::Xor: r = Z3_mk_bvxor(Z, x.a, y.a); break;
  default: throw EngineError{"binary operator"};
  }
  return frombv(w, E(r));
}
static Val vcmp(CmpInst::Predicate p, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym()) {
    u64 x = a.c, y = b.c; int64_t s = sx(x, w), t = sx(y, w); bool r;
    switch (p) {
    case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = s > t; break; case CmpInst::ICMP_SGE: r = s >= t; break;
    case CmpInst::ICMP_SLT: r = s < t; break; case CmpInst::ICMP_SLE: r = s <= t; break;
    default: throw EngineError{"predicate"};
    }
    return Val(1, (u64)r);
  }
  if (p == CmpInst::ICMP_EQ) return veq(a, b);
  if (p == CmpInst::ICMP_NE) return vnot(veq(a, b));
  E x = bvterm(a), y = bvterm(b);
  Z3_ast r;
  switch (p) {
  case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, x.a, y.a); break; case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, x.a, y.a); break;
  case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, x.a, y.a); break; case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, x.a, y.a); break;
  case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, x.a, y.a); break; case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, x.a, y.a); break;
  case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, x.a, y.a); break; case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, x.a, y.a); break;
  default: throw EngineError{"predicate"};
  }
  return fromterm(1, E(r));
}

// ------------------------------------------------------------------ memory
struct SB { E e; unsigned idx, n; }; // byte idx of the n-byte term e (BitVec(8n))
struct Obj {
  u64 base, size;
  uint8_t kind; // 0 heap 1 stack 2 global 3 const
  std::vector<uint8_t> data;
  std::unordered_map<uint32_t, SB> sym;
  const char *what = "";
};
typedef std::shared_ptr<Obj> ObjP;

struct Frame {
  Function *fn;
  BasicBlock *bb, *prev;
  BasicBlock::iterator it;
  std::vector<Val> regs;
  std::vector<u64> allocas;
  std::vector<Val> varargs;
  CallBase *call = nullptr; // call site in the caller
};
struct Thread { std::vector<Frame> st; bool done = false; };
struct Cons { E e; std::shared_ptr<Cons> prev; unsigned depth; };
typedef std::shared_ptr<Cons> ConsP;
struct Model { Z3_model m; Model(Z3_model x) : m(x) { Z3_model_inc_ref(Z, m); } ~Model() { Z3_model_dec_ref(Z, m); } };
typedef std::shared_ptr<Model> ModelP;
struct Input { unsigned w; Val v; };
// happens-before race detection between the threads of a harness (one cell per byte, FastTrack with full read clocks)
enum { MAXT = 4 };
typedef std::array<uint32_t, MAXT> VC;
struct Cell { uint32_t wc = 0; VC rc{}; uint8_t wt = 0; };
typedef std::shared_ptr<std::vector<Cell>> ShadowP;
struct Race { VC vc[MAXT]{}; std::map<u64, VC> lock; std::map<std::pair<u64, u64>, ShadowP> mem; /* 64-byte pages of an object */ };
struct State {
  std::vector<Thread> th;
  unsigned cur = 0;
  std::vector<ObjP> objs; // sorted by base
  std::shared_ptr<Race> race; // only with threads
  ConsP pc;
  ModelP model;
  std::vector<Input> in;
  std::vector<Val> obs;
  std::shared_ptr<std::set<std::string>> tags;
  u64 next = 0x100000000000ull;
  u64 steps = 0;
  unsigned forks = 0;
  std::vector<Frame> &st() { return th[cur].st; }
};
typedef std::unique_ptr<State> StateP;

// ------------------------------------------------------------------ globals
static std::unique_ptr<Module> M;
static const DataLayout *DL;
static std::vector<StateP> work;
static Z3_solver S;
static std::vector<ConsP> sstack;
static u64 nhard, nq, nsat, nunsat, ninstr, npaths, npruned, nforks, nasserts, nmemq;
static double tsolve;
static int seq;
static DenseMap<const Value *, Val> constcache;
static std::unordered_map<const Value *, u64> gaddr;
static std::unordered_map<u64, Function *> faddr;
static std::set<std::string> funcs, unknownext;
static std::map<std::string, u64> blocks;
static std::set<std::string> alltags;
struct Viol { std::string kind, msg, where; std::vector<std::pair<unsigned, u64>> in; };
static std::vector<Viol> viols;
struct Sample { std::vector<std::pair<unsigned, u64>> in; std::vector<u64> obs; };
static std::vector<Sample> samples;
static unsigned maxsamples = 12, maxviol = 4, smt_to = 120000;
static u64 maxsteps = 150000000, maxdepth = 300, longest = 0;
static double tlimit = 1e9, t0;
static std::map<int, u64> cases;
static Val heapfill, stackfill;
static bool trace = false, optfirst = false;
static std::string ownroot = "/verif/";
static const char *cover = getenv("VF_COVER"); // append the lines of the real code that were reached
static DenseSet<BasicBlock *> covered;
struct PathEnd {};

struct FnInfo { DenseMap<const Value *, unsigned> slot; unsigned n = 0; bool repo = false, libc = false; };
static DenseMap<Function *, FnInfo *> finfo;
static FnInfo &info(Function *f) {
  auto &p = finfo[f];
  if (p) return *p;
  p = new FnInfo;
  for (auto &a : f->args()) p->slot[&a] = p->n++;
  for (auto &i : instructions(*f)) if (!i.getType()->isVoidTy()) p->slot[&i] = p->n++;
  if (auto *sp = f->getSubprogram()) {
    std::string dir = (sp->getFilename().starts_with("/") ? "" : sp->getDirectory().str() + "/") + sp->getFilename().str();
    p->repo = dir.find(ownroot) != 0;
    p->libc = StringRef(dir).ends_with("/engine/rt.c") && !f->getName().starts_with("vf_");
    if (p->repo) funcs.insert(f->getName().str());
  }
  return *p;
}

static void syncsolver(const ConsP &pc) {
  std::vector<ConsP> path;
  for (ConsP c = pc; c; c = c->prev) path.push_back(c);
  std::reverse(path.begin(), path.end());
  size_t k = 0;
  while (k < sstack.size() && k < path.size() && sstack[k] == path[k]) k++;
  if (sstack.size() > k) { Z3_solver_pop(Z, S, sstack.size() - k); sstack.resize(k); }
  for (; k < path.size(); k++) { Z3_solver_push(Z, S); Z3_solver_assert(Z, S, path[k]->e.a); sstack.push_back(path[k]); }
}
// is pc && cond satisfiable?  returns model when sat
static bool checksat(State &s, const Val &cond, ModelP *out) {
  if (!cond.sym()) { if (!cond.c) return false; if (s.model && out) { *out = s.model; } if (s.model) return true; }
  double t = now();
  syncsolver(s.pc);
  nq++;
  Z3_lbool r;
  Z3_solver_push(Z, S);
  E t_ = term(cond);
  Z3_solver_assert(Z, S, t_.a);
  r = Z3_solver_check(Z, S);
  if (r == Z3_L_UNDEF) { // hard query: a fresh bit-blasting solver with the full budget
    nhard++;
    Z3_solver F = Z3_mk_solver_for_logic(Z, Z3_mk_string_symbol(Z, "QF_BV"));
    Z3_solver_inc_ref(Z, F);
    Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), smt_to); Z3_solver_set_params(Z, F, p); Z3_params_dec_ref(Z, p);
    for (ConsP c = s.pc; c; c = c->prev) Z3_solver_assert(Z, F, c->e.a);
    Z3_solver_assert(Z, F, t_.a);
    r = Z3_solver_check(Z, F);
    if (r == Z3_L_TRUE && out) *out = std::make_shared<Model>(Z3_solver_get_model(Z, F));
    if (r != Z3_L_UNDEF) { Z3_solver_dec_ref(Z, F); Z3_solver_pop(Z, S, 1); if (r == Z3_L_TRUE) nsat++; else nunsat++; tsolve += now() - t; return r == Z3_L_TRUE; }
    Z3_solver_dec_ref(Z, F);
  }
  if (r == Z3_L_UNDEF) { std::string why = Z3_solver_get_reason_unknown(Z, S); throw EngineError{"solver unknown: " + why}; }
  if (r == Z3_L_TRUE) { nsat++; if (out) *out = std::make_shared<Model>(Z3_solver_get_model(Z, S)); } else nunsat++;
  Z3_solver_pop(Z, S, 1);
  double d = now() - t;
  tsolve += d;
  return r == Z3_L_TRUE;
}
static u64 evalm(const ModelP &m, const Val &v) {
  if (!v.sym()) return v.c;
  Z3_ast r = nullptr;
  if (!m || !Z3_model_eval(Z, m->m, v.s.a, true, &r)) throw EngineError{"model eval"};
  E e(r);
  if (v.w == 1) { Z3_lbool b = Z3_get_bool_value(Z, e.a); if (b == Z3_L_UNDEF) { e = E(Z3_simplify(Z, e.a)); b = Z3_get_bool_value(Z, e.a);} return b == Z3_L_TRUE; }
  u64 x;
  if (!isnum(e, x)) { e = E(Z3_simplify(Z, e.a)); if (!isnum(e, x)) throw EngineError{"model eval not a number"}; }
  return x;
}
static void needmodel(State &s) {
  if (s.model) return;
  ModelP m;
  Val tr(1, (u64)1);
  if (!checksat(s, tr, &m)) throw PathEnd();
  s.model = m;
}
static void addcons(State &s, const Val &c) { // caller guarantees feasibility
  if (!c.sym()) return;
  auto n = std::make_shared<Cons>();
  n->e = c.s; n->prev = s.pc; n->depth = s.pc ? s.pc->depth + 1 : 1;
  s.pc = n;
  if (s.model && !evalm(s.model, c)) s.model = nullptr;
}
static std::string where(State &s) {
  std::string r;
  auto &st = s.st();
  for (int i = (int)st.size() - 1, n = 0; i >= 0 && n < 8; i--, n++) {
    Frame &f = st[i];
    Instruction *I = nullptr;
    if (i == (int)st.size() - 1) I = f.it == f.bb->end() ? nullptr : &*f.it;
    else I = st[i + 1].call;
    std::string loc = f.fn->getName().str();
    if (I && I->getDebugLoc()) { auto *d = I->getDebugLoc().get(); loc += "@" + d->getFilename().str() + ":" + std::to_string(d->getLine()); }
    r += (r.empty() ? "" : " < ") + loc;
  }
  return r;
}
static std::vector<std::pair<unsigned, u64>> inputs(State &s, const ModelP &m) {
  std::vector<std::pair<unsigned, u64>> r;
  for (auto &i : s.in) r.push_back({i.w, evalm(m, i.v)});
  return r;
}
static void violation(State &s, const char *kind, const std::string &msg, ModelP m) {
  if (!m) { needmodel(s); m = s.model; }
  Viol v;
  v.kind = kind; v.msg = msg; v.where = where(s); v.in = inputs(s, m);
  std::string top = v.where.substr(0, v.where.find(" < "));
  for (auto &o : viols) if (o.kind == v.kind && o.msg == v.msg && o.where.substr(0, o.where.find(" < ")) == top) return;
  viols.push_back(v);
  if (trace) std::cerr << "VIOL " << kind << " " << msg << " at " << v.where << "\n";
}


static StateP clone(State &s) { nforks++; auto n = std::make_unique<State>(s); n->forks++; return n; }

// decide c in s: if both feasible, push a copy that took the other side (fix run on the copy)
static bool decide(State &s, const Val &c, const std::function<void(State &)> &fix) {
  if (!c.sym()) return c.c;
  needmodel(s);
  bool side = evalm(s.model, c);
  Val yes = side ? c : vnot(c), no = side ? vnot(c) : c;
  ModelP m;
  if (checksat(s, no, &m)) {
    StateP o = clone(s);
    auto n = std::make_shared<Cons>(); n->e = no.s; n->prev = s.pc; n->depth = s.pc ? s.pc->depth + 1 : 1;
    if (no.sym()) o->pc = n;
    o->model = m;
    fix(*o);
    work.push_back(std::move(o));
    addcons(s, yes);
  }
  return side;
}
// make v concrete by exhaustive forking; the other values re-execute the current instruction
static u64 concretize(State &s, const Val &v) {
  if (!v.sym()) return v.c;
  needmodel(s);
  u64 x = evalm(s.model, v);
  Val eq = veq(v, Val(v.w, x));
  if (eq.sym()) {
    ModelP m;
    Val ne = vnot(eq);
    if (checksat(s, ne, &m)) {
      StateP o = clone(s);
      addcons(*o, ne);
      o->model = m;
      work.push_back(std::move(o));
      addcons(s, eq);
    }
  }
  return x;
}
static ObjP *findobj(State &s, u64 a) {
  auto it = std::upper_bound(s.objs.begin(), s.objs.end(), a, [](u64 x, const ObjP &o) { return x < o->base; });
  if (it == s.objs.begin()) return nullptr;
  --it;
  if (a - (*it)->base > (*it)->size) return nullptr;
  return &*it;
}
static Obj &own(ObjP &p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return *p; }
static ObjP &allocobj(State &s, u64 size, uint8_t kind, const char *what) {
  auto o = std::make_shared<Obj>();
  o->size = size; o->kind = kind; o->what = what;
  o->base = s.next;
  s.next += ((size + 15) & ~15ull) + 0x10000;
  s.next = (s.next + 0xff) & ~0xffull;
  o->data.assign(size, 0);
  s.objs.push_back(o);
  return s.objs.back();
}
static Val readbyte(const Obj &o, u64 off) {
  if (!o.sym.empty()) {
    auto it = o.sym.find(off);
    if (it != o.sym.end()) {
      const SB &b = it->second;
      if (b.n == 1) return Val(8, b.e);
      return fromterm(8, E(Z3_mk_extract(Z, 8 * b.idx + 7, 8 * b.idx, b.e.a)), true);
    }
  }
  return Val(8, o.data[off]);
}
static Val readmem(const Obj &o, u64 off, unsigned n) {
  bool any = false;
  if (!o.sym.empty()) for (unsigned i = 0; i < n; i++) if (o.sym.count(off + i)) { any = true; break; }
  if (!any) { u64 x = 0; memcpy(&x, &o.data[off], n); return Val(8 * n, x); }
  // whole term?
  auto it = o.sym.find(off);
  if (it != o.sym.end() && it->second.idx == 0 && it->second.n == n) {
    bool all = true;
    for (unsigned i = 1; i < n && all; i++) { auto j = o.sym.find(off + i); all = j != o.sym.end() && j->second.e.a == it->second.e.a && j->second.idx == i; }
    if (all) return Val(8 * n, it->second.e);
  }
  Val r = readbyte(o, off);
  for (unsigned i = 1; i < n; i++) r = vconcat(readbyte(o, off + i), r);
  return r.sym() ? fromterm(r.w, r.s, true) : r;
}
static void writemem(Obj &o, u64 off, const Val &v, unsigned n) {
  if (!v.sym()) {
    memcpy(&o.data[off], &v.c, n);
    if (!o.sym.empty()) for (unsigned i = 0; i < n; i++) o.sym.erase(off + i);
    return;
  }
  E t = bvterm(v.w == 8 * n ? v : vzext(v, 8 * n));
  for (unsigned i = 0; i < n; i++) o.sym[off + i] = SB{t, i, n};
}
static void copybytes(Obj &d, u64 doff, const Obj &s, u64 soff, u64 n) {
  if (!n) return;
  std::vector<uint8_t> tmp(s.data.begin() + soff, s.data.begin() + soff + n);
  std::vector<std::pair<u64, SB>> sb;
  if (!s.sym.empty()) {
    if (n < s.sym.size()) { for (u64 i = 0; i < n; i++) { auto it = s.sym.find(soff + i); if (it != s.sym.end()) sb.push_back({i, it->second}); } }
    else for (auto &k : s.sym) if (k.first >= soff && k.first < soff + n) sb.push_back({k.first - soff, k.second});
  }
  if (!d.sym.empty()) {
    if (n < d.sym.size()) for (u64 i = 0; i < n; i++) d.sym.erase(doff + i);
    else for (auto it = d.sym.begin(); it != d.sym.end();) if (it->first >= doff && it->first < doff + n) it = d.sym.erase(it); else ++it;
  }
  memcpy(&d.data[doff], tmp.data(), n);
  for (auto &k : sb) d.sym[doff + k.first] = k.second;
}
static void badaccess(State &s, u64 a, u64 n, const char *op) {
  std::string m = std::string("invalid memory access (") + op + ")";
  violation(s, "memory", m, s.model);
  if (trace) std::cerr << " addr " << std::hex << a << std::dec << " size " << n << "\n";
  throw PathEnd();
}
// object hit by a concrete address
static ObjP &objat(State &s, u64 a, u64 n, const char *op, bool wr) {
  ObjP *p = findobj(s, a);
  if (!p || a - (*p)->base + n > (*p)->size) badaccess(s, a, n, op);
  if (wr && (*p)->kind == 3) { violation(s, "memory", "write to read-only memory", s.model); throw PathEnd(); }
  return *p;
}
// an access of the real code (or of the C library on its behalf) by a thread of the harness
static FnInfo &info(Function *f);
static void access(State &s, const Obj &o, u64 off, u64 n, bool wr, bool always = false) {
  if (!s.cur || !s.race || o.kind == 1 || o.kind == 3 || s.cur >= MAXT) return;
  if (!always) {
    FnInfo &fi = info(s.st().back().fn);
    if (!fi.repo && !fi.libc) return;
  }
  if (s.race.use_count() > 1) s.race = std::make_shared<Race>(*s.race);
  Race &r = *s.race;
  unsigned t = s.cur;
  const VC &me = r.vc[t];
  ShadowP *sh = nullptr;
  for (u64 i = off; i < off + n && i < o.size; i++) {
    if (!sh || i % 64 == 0) {
      sh = &r.mem[{o.base, i / 64}];
      if (!*sh) *sh = std::make_shared<std::vector<Cell>>(64);
      else if (sh->use_count() > 1) *sh = std::make_shared<std::vector<Cell>>(**sh);
    }
    Cell &c = (**sh)[i % 64];
    bool bad = c.wc && c.wt != t && c.wc > me[c.wt];
    if (wr) for (unsigned u = 0; u < MAXT; u++) if (u != t && c.rc[u] > me[u]) bad = true;
    if (bad) {
      if (trace) std::cerr << " race at " << o.what << "+" << i << " size " << o.size << "\n";
      violation(s, "race", wr ? "data race: a thread writes what another one uses, with no order between them" : "data race: a thread reads what another one writes, with no order between them", s.model);
      throw PathEnd();
    }
    if (wr) { c.wt = t; c.wc = me[t]; } else c.rc[t] = me[t];
  }
}
static void accessloc(State &s, ObjP *o, u64 lo, const std::vector<u64> &cand, bool conc, unsigned n, bool wr) {
  if (!s.cur || !s.race) return;
  if (conc) access(s, **o, lo, n, wr);
  else for (u64 k : cand) access(s, **o, k, n, wr);
}
struct Loc { ObjP *o; u64 lo; std::vector<u64> cand; bool conc; Val addr; };
static bool feasible(State &s, const Val &c) { nmemq++; if (!c.sym()) return c.c; needmodel(s); if (evalm(s.model, c)) return true; return checksat(s, c, nullptr); }
static Loc resolve(State &s, const Val &addr, u64 n, const char *op, bool wr) {
  Loc L;
  L.addr = addr;
  if (!addr.sym()) { ObjP &o = objat(s, addr.c, n, op, wr); L.o = &o; L.lo = addr.c - o->base; L.conc = true; return L; }
  needmodel(s);
  u64 a = evalm(s.model, addr);
  // Prefer reporting an access outside every object if one exists for this object's neighbourhood.
  ObjP *p = findobj(s, a);
  if (!p || a - (*p)->base + n > (*p)->size) badaccess(s, a, n, op);
  Obj &o = **p;
  Val inb = vand1(vcmp(CmpInst::ICMP_UGE, addr, Val(64, o.base)), vcmp(CmpInst::ICMP_ULE, addr, Val(64, o.base + o.size - n)));
  if (inb.sym()) {
    ModelP m;
    Val out = vnot(inb);
    if (checksat(s, out, &m)) {
      u64 b = evalm(m, addr);
      ObjP *q = findobj(s, b);
      if (!q || b - (*q)->base + n > (*q)->size) { ModelP keep = s.model; s.model = m; violation(s, "memory", std::string("invalid memory access (") + op + ")", m); s.model = keep; }
      else { StateP c = clone(s); addcons(*c, out); c->model = m; work.push_back(std::move(c)); }
      addcons(s, inb);
    }
  }
  if (wr && o.kind == 3) { violation(s, "memory", "write to read-only memory", s.model); throw PathEnd(); }
  Val off = vbin(Instruction::Sub, addr, Val(64, o.base));
  L.o = p;
  if (!off.sym()) { L.conc = true; L.lo = off.c; return L; }
  u64 lo = 0, hi = o.size - n;
  if (hi > 48) { // narrow by binary search
    needmodel(s);
    u64 v = evalm(s.model, off), l = 0, h = v;
    if (l < h && feasible(s, veq(off, Val(64, l)))) h = l; // the whole object is the common case
    while (l < h) { u64 mid = l + (h - l) / 2; if (feasible(s, vcmp(CmpInst::ICMP_ULE, off, Val(64, mid)))) h = mid; else l = mid + 1; }
    lo = l; l = v; h = hi;
    if (l < h && feasible(s, veq(off, Val(64, h)))) l = h;
    while (l < h) { u64 mid = h - (h - l) / 2; if (feasible(s, vcmp(CmpInst::ICMP_UGE, off, Val(64, mid)))) l = mid; else h = mid - 1; }
    hi = l;
  }
  if (lo == hi) { L.conc = true; L.lo = lo; return L; }
  u64 stride = 1;
  if (n > 1 && hi - lo >= n) {
    Val al = veq(vbin(Instruction::URem, vbin(Instruction::Sub, off, Val(64, lo)), Val(64, n)), Val(64, (u64)0));
    if (!feasible(s, vnot(al))) stride = n;
  }
  if ((hi - lo) / stride > 1500) { u64 v = concretize(s, addr); L.conc = true; L.lo = v - o.base; return L; }
  L.conc = false;
  for (u64 k = lo; k <= hi; k += stride) L.cand.push_back(k);
  return L;
}
static Val loadmem(State &s, const Val &addr, unsigned n) {
  Loc L = resolve(s, addr, n, "read", false);
  accessloc(s, L.o, L.lo, L.cand, L.conc, n, false);
  if (L.conc) return readmem(**L.o, L.lo, n);
  u64 base = (*L.o)->base;
  std::vector<Val> vals;
  std::map<u64, unsigned> freq;
  for (u64 k : L.cand) { vals.push_back(readmem(**L.o, k, n)); if (!vals.back().sym() && !vals.back().agg) freq[vals.back().c]++; }
  int def = (int)vals.size() - 1; // the most frequent concrete value is the default of the chain
  unsigned best = 0;
  for (int i = 0; i < (int)vals.size(); i++) if (!vals[i].sym() && freq[vals[i].c] > best) { best = freq[vals[i].c]; def = i; }
  Val r = vals[def];
  for (int i = (int)vals.size() - 1; i >= 0; i--) {
    if (i == def || (!vals[i].sym() && !vals[def].sym() && vals[i].c == vals[def].c)) continue;
    r = vite(veq(addr, Val(64, base + L.cand[i])), vals[i], r);
  }
  return r;
}
static void storemem(State &s, const Val &addr, const Val &v, unsigned n) {
  Loc L = resolve(s, addr, n, "write", true);
  accessloc(s, L.o, L.lo, L.cand, L.conc, n, true);
  Obj &o = own(*L.o);
  if (L.conc) { writemem(o, L.lo, v, n); return; }
  u64 base = o.base;
  Val vv = v.w == 8 * n ? v : vzext(v, 8 * n);
  if (L.cand.size() > 1 && L.cand[1] - L.cand[0] < n) { // overlapping candidates: bytewise
    for (unsigned i = 0; i < n; i++)
      for (u64 k : L.cand) writemem(o, k + i, vite(veq(addr, Val(64, base + k)), vextract(vv, 8 * i, 8), readmem(o, k + i, 1)), 1);
  } else
    for (u64 k : L.cand) writemem(o, k, vite(veq(addr, Val(64, base + k)), vv, readmem(o, k, n)), n);
}
// range of a symbolic value, by binary search with the solver
static void range(State &s, const Val &v, u64 cap, u64 &lo, u64 &hi) {
  needmodel(s);
  u64 m = evalm(s.model, v), l = 0, h = m;
  while (l < h) { u64 mid = l + (h - l) / 2; if (feasible(s, vcmp(CmpInst::ICMP_ULE, v, Val(v.w, mid)))) h = mid; else l = mid + 1; }
  lo = l;
  if (!feasible(s, vcmp(CmpInst::ICMP_ULE, v, Val(v.w, cap))) || feasible(s, vcmp(CmpInst::ICMP_UGT, v, Val(v.w, cap)))) { hi = ~0ull; return; }
  l = m; h = cap;
  while (l < h) { u64 mid = h - (h - l) / 2; if (feasible(s, vcmp(CmpInst::ICMP_UGE, v, Val(v.w, mid)))) l = mid; else h = mid - 1; }
  hi = l;
}
// object containing [addr, addr+n) for symbolic addr and/or n (n > 0); other objects re-execute
static ObjP *symregion(State &s, const Val &addr, const Val &n, const char *op, bool wr, u64 &lo, u64 &hi) {
  needmodel(s);
  u64 a = evalm(s.model, addr), k = evalm(s.model, n);
  ObjP *p = findobj(s, a);
  if (!p || a - (*p)->base + k > (*p)->size) badaccess(s, a, k, op);
  Obj &o = **p;
  Val end = vbin(Instruction::Add, addr, n);
  Val inb = vand1(vand1(vcmp(CmpInst::ICMP_UGE, addr, Val(64, o.base)), vcmp(CmpInst::ICMP_ULE, addr, Val(64, o.base + o.size))), vand1(vcmp(CmpInst::ICMP_ULE, end, Val(64, o.base + o.size)), vcmp(CmpInst::ICMP_UGE, end, addr)));
  if (inb.sym()) {
    ModelP m; Val out = vnot(inb);
    if (checksat(s, out, &m)) {
      u64 b = evalm(m, addr), bn = evalm(m, n);
      ObjP *q = findobj(s, b);
      if (!q || b - (*q)->base + bn > (*q)->size || bn > (*q)->size) { violation(s, "memory", std::string("invalid memory access (") + op + ")", m); }
      else { StateP c = clone(s); addcons(*c, out); c->model = m; work.push_back(std::move(c)); p = findobj(s, a); }
      addcons(s, inb); needmodel(s);
    }
  }
  if (wr && o.kind == 3) { violation(s, "memory", "write to read-only memory", s.model); throw PathEnd(); }
  if (!addr.sym()) { lo = hi = addr.c - o.base; return p; }
  Val off = vbin(Instruction::Sub, addr, Val(64, o.base));
  range(s, off, o.size, lo, hi);
  return p;
}
// copy (src given) or fill (src null) of a symbolic number of bytes without forking on it
static bool symcopy(State &s, const Val &dst, const Val *src, const Val *fillb, const Val &n) {
  u64 nlo, nmax;
  range(s, n, 160, nlo, nmax);
  if (nmax > 160) return false;
  if (nmax == 0) return true;
  u64 dlo, dhi, slo = 0, shi = 0;
  ObjP *dp = symregion(s, dst, n, "copy destination", true, dlo, dhi);
  ObjP so;
  if (src) { ObjP *sp = symregion(s, *src, n, "copy source", false, slo, shi); so = *sp; dp = findobj(s, evalm((needmodel(s), s.model), dst)); }
  if ((dhi - dlo) * nmax > 6000 || (shi - slo) * nmax > 40000) return false;
  // offsets are aligned to a common stride when the solver says so (keeps the chains short)
  std::vector<Val> bytes(nmax);
  for (u64 i = 0; i < nmax; i++) {
    if (!src) { bytes[i] = *fillb; continue; }
    Val r; bool first = true;
    for (u64 o = shi + 1; o-- > slo;) {
      if (o + i >= so->size) continue;
      Val b = readbyte(*so, o + i);
      if (first) { r = b; first = false; }
      else r = vite(veq(*src, Val(64, so->base + o)), b, r);
      if (o == 0) break;
    }
    if (first) r = Val(8, (u64)0);
    bytes[i] = r;
  }
  ObjP so_keep = so;
  if (src) access(s, *so_keep, slo, shi - slo + nmax, false);
  access(s, **dp, dlo, dhi - dlo + nmax, true);
  so.reset(); so_keep.reset();
  Obj &d = own(*dp);
  u64 dbase = d.base;
  Obj old = d;
  for (u64 x = dlo; x < std::min(dhi + nmax, d.size); x++) { // new value of destination byte x
    Val r = readbyte(old, x);
    for (u64 o = dlo; o <= dhi && o <= x; o++) {
      u64 i = x - o;
      if (i >= nmax) continue;
      Val g = i < nlo ? Val(1, (u64)1) : vcmp(CmpInst::ICMP_ULT, Val(n.w, i), n);
      if (dlo != dhi) g = vand1(g, veq(dst, Val(64, dbase + o)));
      r = vite(g, bytes[i], r);
    }
    writemem(d, x, r, 1);
  }
  return true;
}
static std::string cstr(State &s, u64 a) {
  std::string r;
  for (;; a++) { ObjP &o = objat(s, a, 1, "string", false); Val b = readbyte(*o, a - o->base); if (b.sym()) { r += '?'; if (r.size() > 100) break; continue; } if (!b.c) break; r += (char)b.c; }
  return r;
}

// ------------------------------------------------------------------ constants and types
static unsigned bits(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); throw EngineError{"type"}; }
static Val zeroof(Type *t) {
  if (t->isIntegerTy() || t->isPointerTy()) return Val(bits(t), (u64)0);
  Val v;
  v.agg = std::make_shared<std::vector<Val>>();
  if (auto *st = dyn_cast<StructType>(t)) { for (auto *e : st->elements()) v.agg->push_back(zeroof(e)); return v; }
  if (auto *at = dyn_cast<ArrayType>(t)) { for (u64 i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroof(at->getElementType())); return v; }
  throw EngineError{"unsupported type (floating point or vector)"};
}
static Val cval(const Constant *c);
static Val gepconst(const GEPOperator *g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) throw EngineError{"constant gep"};
  return vbin(Instruction::Add, cval(cast<Constant>(g->getPointerOperand())), Val(64, off.getZExtValue()));
}
static Val fillval(const Val &fill, unsigned w) {
  if (w < 8) return vextract(fill, 0, w);
  Val r = fill;
  while (r.w < w) r = vconcat(fill, r);
  return r;
}
static Val cval(const Constant *c) {
  auto it = constcache.find(c);
  if (it != constcache.end()) return it->second;
  Val r;
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) throw EngineError{"wide integer"}; r = Val(ci->getBitWidth(), ci->getZExtValue()); }
  else if (isa<ConstantPointerNull>(c)) r = Val(64, (u64)0);
  else if (isa<GlobalValue>(c)) {
    auto j = gaddr.find(c);
    if (j == gaddr.end()) { if (auto *ga = dyn_cast<GlobalAlias>(c)) return cval(ga->getAliasee()); throw EngineError{"unknown global " + c->getName().str()}; }
    r = Val(64, j->second);
  } else if (isa<UndefValue>(c)) r = zeroof(c->getType());
  else if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    if (auto *g = dyn_cast<GEPOperator>(ce)) r = gepconst(g);
    else switch (ce->getOpcode()) {
    case Instruction::PtrToInt: case Instruction::Trunc: r = vextract(cval(ce->getOperand(0)), 0, bits(c->getType())); break;
    case Instruction::IntToPtr: case Instruction::ZExt: r = vzext(cval(ce->getOperand(0)), bits(c->getType())); break;
    case Instruction::BitCast: r = cval(ce->getOperand(0)); break;
    case Instruction::Add: case Instruction::Sub: case Instruction::Xor: r = vbin(ce->getOpcode(), cval(ce->getOperand(0)), cval(ce->getOperand(1))); break;
    case Instruction::ICmp: r = vcmp((CmpInst::Predicate)ce->getPredicate(), cval(ce->getOperand(0)), cval(ce->getOperand(1))); break;
    default: throw EngineError{"constant expression"};
    }
  } else if (isa<ConstantAggregateZero>(c)) r = zeroof(c->getType());
  else if (isa<ConstantStruct>(c) || isa<ConstantArray>(c)) { r.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < c->getNumOperands(); i++) r.agg->push_back(cval(cast<Constant>(c->getOperand(i)))); }
  else throw EngineError{"constant"};
  constcache[c] = r;
  return r;
}
static void initglobal(Obj &o, u64 off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *ds = dyn_cast<ConstantDataSequential>(c)) { StringRef d = ds->getRawDataValues(); memcpy(&o.data[off], d.data(), d.size()); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < c->getNumOperands(); i++) initglobal(o, off + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 e = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) initglobal(o, off + i * e, cast<Constant>(c->getOperand(i))); return; }
  if (t->isFloatingPointTy()) { auto *f = cast<ConstantFP>(c); u64 b = f->getValueAPF().bitcastToAPInt().getZExtValue(); memcpy(&o.data[off], &b, DL->getTypeStoreSize(t)); return; }
  Val v = cval(c);
  writemem(o, off, v, DL->getTypeStoreSize(t));
}
static Val get(State &s, const Value *v) {
  if (auto *c = dyn_cast<Constant>(v)) return cval(c);
  Frame &f = s.st().back();
  return f.regs[info(f.fn).slot[v]];
}
static void setreg(State &s, const Value *v, Val x) {
  Frame &f = s.st().back();
  f.regs[info(f.fn).slot[v]] = std::move(x);
}
static Val loadty(State &s, const Val &addr, Type *t) {
  if (t->isIntegerTy() || t->isPointerTy()) {
    unsigned w = bits(t), n = DL->getTypeStoreSize(t);
    if (n > 8) throw EngineError{"wide load"};
    Val v = loadmem(s, addr, n);
    return w == 8 * n ? v : vextract(v, 0, w);
  }
  Val r; r.agg = std::make_shared<std::vector<Val>>();
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) r.agg->push_back(loadty(s, vbin(Instruction::Add, addr, Val(64, sl->getElementOffset(i))), st->getElementType(i))); return r; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 e = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) r.agg->push_back(loadty(s, vbin(Instruction::Add, addr, Val(64, i * e)), at->getElementType())); return r; }
  throw EngineError{"load type"};
}
static void storety(State &s, const Val &addr, const Val &v, Type *t) {
  if (t->isIntegerTy() || t->isPointerTy()) { unsigned n = DL->getTypeStoreSize(t); storemem(s, addr, v.w == 8 * n ? v : vzext(v, 8 * n), n); return; }
  if (auto *st = dyn_cast<StructType>(t)) { auto *sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storety(s, vbin(Instruction::Add, addr, Val(64, sl->getElementOffset(i))), (*v.agg)[i], st->getElementType(i)); return; }
  if (auto *at = dyn_cast<ArrayType>(t)) { u64 e = DL->getTypeAllocSize(at->getElementType()); for (u64 i = 0; i < at->getNumElements(); i++) storety(s, vbin(Instruction::Add, addr, Val(64, i * e)), (*v.agg)[i], at->getElementType()); return; }
  throw EngineError{"store type"};
}

// ------------------------------------------------------------------ calls
static void enter(State &s, Function *f, const std::vector<Val> &args, CallBase *call) {
  if (s.st().size() >= maxdepth) { violation(s, "stack", "call depth exceeds " + std::to_string(maxdepth) + " (unbounded recursion)", nullptr); throw PathEnd(); }
  FnInfo &fi = info(f);
  Frame fr;
  if (cover) covered.insert(&f->getEntryBlock());
  fr.fn = f; fr.bb = &f->getEntryBlock(); fr.prev = nullptr; fr.it = fr.bb->begin(); fr.call = call;
  fr.regs.resize(fi.n);
  unsigned i = 0;
  for (auto &a : f->args()) {
    if (i >= args.size()) break;
    Val v = args[i++];
    if (a.hasByValAttr()) {
      Type *bt = a.getParamByValType();
      u64 sz = DL->getTypeAllocSize(bt);
      u64 src = concretize(s, v);
      ObjP so = objat(s, src, sz, "byval", false);
      ObjP &o = allocobj(s, sz, 1, "byval");
      copybytes(*o, 0, *so, src - so->base, sz);
      v = Val(64, o->base);
      fr.allocas.push_back(o->base);
    }
    fr.regs[fi.slot[&a]] = v;
  }
  for (; i < args.size(); i++) fr.varargs.push_back(args[i]);
  s.st().push_back(std::move(fr));
}
static void dropobj(State &s, u64 base) {
  auto it = std::lower_bound(s.objs.begin(), s.objs.end(), base, [](const ObjP &o, u64 b) { return o->base < b; });
  if (it != s.objs.end() && (*it)->base == base) s.objs.erase(it);
}
static Val newsym(State &s, unsigned w) {
  std::string n = "i" + std::to_string(s.in.size()) + "_" + std::to_string(w);
  Z3_symbol sy = Z3_mk_string_symbol(Z, n.c_str());
  Val v(w, E(Z3_mk_const(Z, sy, bvsort(w))));
  return v;
}
static void endpath(State &s) {
  npaths++;
  if (s.steps > longest) longest = s.steps;
  if (s.tags) for (auto &t : *s.tags) alltags.insert(t);
  if (samples.size() < maxsamples || (npaths & (npaths - 1)) == 0) {
    needmodel(s);
    Sample sm; sm.in = inputs(s, s.model);
    for (auto &o : s.obs) sm.obs.push_back(evalm(s.model, o));
    if (samples.size() < maxsamples) samples.push_back(sm); else samples[npaths % maxsamples] = sm;
  }
}
static bool inrange_addr_ok(State &s, u64 a, u64 n) { ObjP *p = findobj(s, a); return p && a - (*p)->base + n <= (*p)->size; }

// returns true when handled; ret is the result
static bool intrinsic(State &s, CallBase *cb, StringRef n, std::vector<Val> &a, Val &ret) {
  auto conc = [&](unsigned i) { return concretize(s, a[i]); };
  if (n == "vf_sym") { unsigned w = 8 * conc(0); Val v = newsym(s, w); s.in.push_back({w, v}); ret = vzext(v, 64); return true; }
  if (n == "vf_split") {
    u64 k = conc(0); int id = (int)conc(1);
    auto c = cases.find(id);
    Val v = newsym(s, 32);
    Val ok = vcmp(CmpInst::ICMP_ULT, v, Val(32, k));
    if (c != cases.end()) ok = veq(v, Val(32, c->second));
    // choose concretely by exhaustive forking
    addcons(s, ok); s.model = nullptr;
    s.in.push_back({32, v});
    needmodel(s);
    u64 x = evalm(s.model, v);
    std::vector<u64> all; if (c != cases.end()) all.push_back(c->second); else for (u64 i = 0; i < k; i++) all.push_back(i);
    for (u64 i : all) if (i != x) {
      StateP o = clone(s);
      addcons(*o, veq(v, Val(32, i))); o->model = nullptr;
      if (!cb->getType()->isVoidTy()) { setreg(*o, cb, Val(32, i)); }
      ++o->st().back().it;
      work.push_back(std::move(o));
    }
    addcons(s, veq(v, Val(32, x)));
    ret = Val(32, x);
    return true;
  }
  if (n == "vf_assume_") {
    Val c = vnot(veq(a[0], Val(a[0].w, (u64)0)));
    if (!c.sym()) { if (!c.c) { npruned++; throw PathEnd(); } return true; }
    ModelP m;
    if (!checksat(s, c, &m)) { npruned++; throw PathEnd(); }
    addcons(s, c); if (!s.model) s.model = m;
    return true;
  }
  if (n == "vf_assert_") {
    nasserts++;
    Val c = veq(a[0], Val(a[0].w, (u64)0));
    ModelP m;
    bool bad = c.sym() ? checksat(s, c, &m) : c.c;
    if (bad) {
      violation(s, "assert", cstr(s, conc(1)), m);
      Val ok = vnot(c);
      ModelP m2;
      if (!ok.sym() || !checksat(s, ok, &m2)) throw PathEnd();
      addcons(s, ok); s.model = m2;
    } else if (c.sym()) addcons(s, vnot(c));
    return true;
  }
  if (n == "vf_fail_") { violation(s, "assert", cstr(s, conc(0)), nullptr); throw PathEnd(); }
  if (n == "vf_reach") {
    auto t = std::make_shared<std::set<std::string>>(); if (s.tags) *t = *s.tags;
    t->insert(cstr(s, conc(0))); s.tags = t; return true;
  }
  if (n == "vf_obs") { s.obs.push_back(a[0]); return true; }
  if (n == "vf_concretize") { ret = Val(a[0].w, concretize(s, a[0])); return true; }
  if (n == "vf_end") { endpath(s); throw PathEnd(); }
  if (n == "vf_stop") { npruned++; throw PathEnd(); } // path outside the harness' domain
  if (n == "vf_is_symbolic") { ret = Val(32, (u64)a[0].sym()); return true; }
  if (n == "vf_native") { ret = Val(32, (u64)0); return true; }
  if (n == "vf_addr_ok") { u64 p = conc(0), k = conc(1); ret = Val(32, (u64)(k == 0 || inrange_addr_ok(s, p, k))); return true; }
  if (n == "vf_protect") { ObjP *o = findobj(s, conc(0)); if (o) { Obj &x = own(*o); x.kind = 3; x.size = std::min(x.size, conc(2)); } return true; } // from now on only read, and only so far
  if (n == "vf_trace") { std::cerr << "TRACE " << cstr(s, conc(0)) << " " << (a[1].sym() ? std::string(Z3_ast_to_string(Z, a[1].s.a)) : std::to_string(a[1].c)) << "\n"; return true; }
  if (n == "vf_thread_new") {
    u64 f = conc(0); auto it = faddr.find(f); if (it == faddr.end()) throw EngineError{"thread fn"};
    unsigned cur = s.cur; s.th.emplace_back(); s.cur = s.th.size() - 1;
    if (!s.race) s.race = std::make_shared<Race>(); else if (s.race.use_count() > 1) s.race = std::make_shared<Race>(*s.race);
    if (s.cur < MAXT) s.race->vc[s.cur][s.cur] = 1;
    enter(s, it->second, {a[1]}, nullptr);
    ret = Val(32, (u64)s.cur); s.cur = cur; return true;
  }
  if (n == "vf_thread_done") { ret = Val(32, (u64)s.th[conc(0)].done); return true; }
  if (n == "vf_sync") { // (1, m): acquire, (0, m): release
    u64 acq = conc(0), m = conc(1); unsigned t = s.cur;
    if (!t || !s.race || t >= MAXT) return true;
    if (s.race.use_count() > 1) s.race = std::make_shared<Race>(*s.race);
    VC &l = s.race->lock[m], &v = s.race->vc[t];
    if (acq) { for (unsigned u = 0; u < MAXT; u++) v[u] = std::max(v[u], l[u]); }
    else { for (unsigned u = 0; u < MAXT; u++) l[u] = std::max(v[u], l[u]); v[t]++; }
    return true;
  }
  if (n == "vf_thread_self") { ret = Val(32, (u64)s.cur); return true; }
  if (n == "vf_thread_switch") { // the current thread continues after this call when switched back to
    u64 t = conc(0);
    if (!cb->getType()->isVoidTy()) setreg(s, cb, Val(32, (u64)0));
    ++s.st().back().it;
    s.cur = t;
    return true;
  }
  if (n == "malloc" || n == "vf_raw_malloc") {
    u64 k = conc(0);
    if (k > (1u << 26)) { ret = Val(64, (u64)0); return true; }
    ObjP &o = allocobj(s, k, 0, "heap");
    if (heapfill.sym()) { if (k <= 65536) { for (u64 i = 0; i < k; i++) o->sym[i] = SB{heapfill.s, 0, 1}; } }
    else memset(o->data.data(), heapfill.c, k);
    ret = Val(64, o->base); return true;
  }
  if (n == "calloc") {
    u64 k = conc(0) * conc(1);
    if (k > (1u << 26)) { ret = Val(64, (u64)0); return true; }
    ret = Val(64, allocobj(s, k, 0, "heap")->base); return true;
  }
  if (n == "free") {
    u64 p = conc(0);
    if (!p) return true;
    ObjP *o = findobj(s, p);
    if (!o || (*o)->base != p || (*o)->kind != 0) { violation(s, "memory", "invalid or double free", s.model); throw PathEnd(); }
    access(s, **o, 0, (*o)->size, true, true);
    dropobj(s, p); return true;
  }
  if (n == "realloc") {
    u64 p = conc(0), k = conc(1);
    u64 old = 0; ObjP src;
    if (p) { ObjP *o = findobj(s, p); if (!o || (*o)->base != p || (*o)->kind != 0) { violation(s, "memory", "invalid realloc", s.model); throw PathEnd(); } src = *o; old = src->size; access(s, *src, 0, old, true, true); }
    if (p && k == 0) { dropobj(s, p); ret = Val(64, (u64)0); return true; }
    if (k > (1u << 26)) { ret = Val(64, (u64)0); return true; }
    ObjP &o = allocobj(s, k, 0, "heap");
    if (heapfill.sym()) { for (u64 i = old; i < k; i++) o->sym[i] = SB{heapfill.s, 0, 1}; } else if (k > old) memset(o->data.data() + old, heapfill.c, k - old);
    if (src) copybytes(*o, 0, *src, 0, std::min(old, k));
    u64 b = o->base;
    if (p) dropobj(s, p);
    ret = Val(64, b); return true;
  }
  if (n == "vf_malloc_size") { u64 p = conc(0); ObjP *o = findobj(s, p); ret = Val(64, o && (*o)->base == p ? (*o)->size : 0); return true; }
  if (n == "memcpy" || n == "memmove" || n == "__memcpy_chk" || n == "__memmove_chk" || n == "mempcpy") {
    if (n != "mempcpy" && (a[2].sym() || a[1].sym() || a[0].sym())) {
      Val z = veq(a[2], Val(64, (u64)0));
      ret = a[0];
      if (z.sym()) { if (decide(s, z, [](State &) {})) return true; } else if (z.c) return true;
      if (symcopy(s, a[0], &a[1], nullptr, a[2])) return true;
    }
    u64 k = conc(2), d = conc(0), c = conc(1);
    ret = Val(64, n == "mempcpy" ? d + k : d);
    if (!k) return true;
    ObjP src = objat(s, c, k, "copy source", false);
    access(s, *src, c - src->base, k, false);
    { ObjP &dp = objat(s, d, k, "copy destination", true); access(s, *dp, d - dp->base, k, true); }
    Obj &o = own(objat(s, d, k, "copy destination", true));
    copybytes(o, d - o.base, o.base == src->base ? o : *src, c - src->base, k);
    return true;
  }
  if (n == "memset" || n == "__memset_chk" || n == "bzero") {
    if (n == "bzero") { a.push_back(a[1]); a[1] = Val(32, (u64)0); }
    if (a[2].sym() || a[0].sym()) {
      Val z = veq(a[2], Val(64, (u64)0)), b8 = vextract(a[1], 0, 8);
      ret = a[0];
      if (z.sym()) { if (decide(s, z, [](State &) {})) return true; } else if (z.c) return true;
      if (symcopy(s, a[0], nullptr, &b8, a[2])) return true;
    }
    u64 k = conc(2), d = conc(0);
    ret = Val(64, d);
    if (!k) return true;
    { ObjP &dp = objat(s, d, k, "memset", true); access(s, *dp, d - dp->base, k, true); }
    Obj &o = own(objat(s, d, k, "memset", true));
    Val b = vextract(a[1], 0, 8);
    u64 off = d - o.base;
    if (!b.sym()) { memset(&o.data[off], b.c, k); if (!o.sym.empty()) for (u64 i = 0; i < k; i++) o.sym.erase(off + i); }
    else for (u64 i = 0; i < k; i++) writemem(o, off + i, b, 1);
    return true;
  }
  if (n == "memcmp" || n == "bcmp") {
    u64 k = conc(2), x = conc(0), y = conc(1);
    ret = Val(32, (u64)0);
    if (!k) return true;
    ObjP p = objat(s, x, k, "memcmp", false), q = objat(s, y, k, "memcmp", false);
    access(s, *p, x - p->base, k, false); access(s, *q, y - q->base, k, false);
    for (u64 i = k; i-- > 0;) {
      Val u = readbyte(*p, x - p->base + i), v = readbyte(*q, y - q->base + i);
      ret = vite(veq(u, v), ret, vite(vcmp(CmpInst::ICMP_ULT, u, v), Val(32, ~0ull), Val(32, (u64)1)));
    }
    return true;
  }
  if (n == "__assert_fail") { violation(s, "abort", "assertion in the code fails: " + cstr(s, conc(0)), nullptr); throw PathEnd(); }
  if (n == "abort" || n == "exit" || n == "_exit" || n == "__stack_chk_fail") { violation(s, "abort", (n + "() called").str(), nullptr); throw PathEnd(); }
  return false;
}

static void doret(State &s, Val v) {
  Frame &f = s.st().back();
  for (u64 b : f.allocas) dropobj(s, b);
  CallBase *call = f.call;
  bool isvoid = f.fn->getReturnType()->isVoidTy();
  s.st().pop_back();
  if (s.st().empty()) {
    if (s.cur == 0) { endpath(s); throw PathEnd(); }
    s.th[s.cur].done = true;
    s.cur = 0; // control returns to the main thread's scheduler loop
    return;
  }
  if (call && !isvoid && !call->getType()->isVoidTy()) setreg(s, call, std::move(v));
  ++s.st().back().it;
}
static void gotobb(State &s, BasicBlock *b) {
  Frame &f = s.st().back();
  if (cover) covered.insert(b);
  f.prev = f.bb; f.bb = b; f.it = b->begin();
  if (isa<PHINode>(f.it)) {
    std::vector<std::pair<const Value *, Val>> up;
    while (auto *p = dyn_cast<PHINode>(f.it)) { up.push_back({p, get(s, p->getIncomingValueForBlock(f.prev))}); ++f.it; }
    for (auto &u : up) setreg(s, u.first, u.second);
  }
}
static void docall(State &s, CallBase *cb) {
  Function *f = cb->getCalledFunction();
  std::vector<Val> args;
  if (!f) {
    Value *cv = cb->getCalledOperand()->stripPointerCasts();
    if (auto *ff = dyn_cast<Function>(cv)) f = ff;
    else if (isa<InlineAsm>(cv)) { ++s.st().back().it; return; }
    else {
      u64 p = concretize(s, get(s, cv));
      auto it = faddr.find(p);
      if (it == faddr.end()) { violation(s, "memory", "call through an invalid function pointer", s.model); throw PathEnd(); }
      f = it->second;
    }
  }
  StringRef n = f->getName();
  if (f->isIntrinsic()) {
    Intrinsic::ID id = f->getIntrinsicID();
    switch (id) {
    case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::lifetime_start: case Intrinsic::lifetime_end:
    case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::stackrestore: case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::vaend:
      ++s.st().back().it; return;
    case Intrinsic::stacksave: case Intrinsic::returnaddress: case Intrinsic::frameaddress: setreg(s, cb, Val(64, (u64)0)); ++s.st().back().it; return;
    case Intrinsic::trap: violation(s, "abort", "trap", nullptr); throw PathEnd();
    default: break;
    }
    for (auto &u : cb->args()) if (!u->getType()->isMetadataTy()) args.push_back(get(s, u));
    Val r;
    switch (id) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: intrinsic(s, cb, "memmove", args, r); break;
    case Intrinsic::memset: case Intrinsic::memset_inline: intrinsic(s, cb, "memset", args, r); break;
    case Intrinsic::expect: case Intrinsic::expect_with_probability: setreg(s, cb, args[0]); break;
    case Intrinsic::is_constant: setreg(s, cb, Val(1, (u64)0)); break;
    case Intrinsic::objectsize: setreg(s, cb, Val(bits(cb->getType()), ~0ull)); break;
    case Intrinsic::umin: setreg(s, cb, vite(vcmp(CmpInst::ICMP_ULT, args[0], args[1]), args[0], args[1])); break;
    case Intrinsic::umax: setreg(s, cb, vite(vcmp(CmpInst::ICMP_UGT, args[0], args[1]), args[0], args[1])); break;
    case Intrinsic::smin: setreg(s, cb, vite(vcmp(CmpInst::ICMP_SLT, args[0], args[1]), args[0], args[1])); break;
    case Intrinsic::smax: setreg(s, cb, vite(vcmp(CmpInst::ICMP_SGT, args[0], args[1]), args[0], args[1])); break;
    case Intrinsic::abs: setreg(s, cb, vite(vcmp(CmpInst::ICMP_SLT, args[0], Val(args[0].w, (u64)0)), vbin(Instruction::Sub, Val(args[0].w, (u64)0), args[0]), args[0])); break;
    case Intrinsic::bswap: { Val x = args[0], y = vextract(x, 0, 8); for (unsigned i = 8; i < x.w; i += 8) y = vconcat(y, vextract(x, i, 8)); setreg(s, cb, y); break; }
    case Intrinsic::ctpop: { Val x = args[0], y(x.w, (u64)0); for (unsigned i = 0; i < x.w; i++) y = vbin(Instruction::Add, y, vzext(vextract(x, i, 1), x.w)); setreg(s, cb, y); break; }
    case Intrinsic::ctlz: { Val x = args[0], y(x.w, (u64)x.w); for (unsigned i = 0; i < x.w; i++) y = vite(vextract(x, i, 1), Val(x.w, (u64)(x.w - 1 - i)), y); setreg(s, cb, y); break; }
    case Intrinsic::cttz: { Val x = args[0], y(x.w, (u64)x.w); for (int i = x.w - 1; i >= 0; i--) y = vite(vextract(x, i, 1), Val(x.w, (u64)i), y); setreg(s, cb, y); break; }
    case Intrinsic::fshl: case Intrinsic::fshr: { // concrete shift only
      u64 k = concretize(s, args[2]) % args[0].w; unsigned w = args[0].w; Val r2;
      if (id == Intrinsic::fshl) r2 = k ? vbin(Instruction::Or, vbin(Instruction::Shl, args[0], Val(w, k)), vbin(Instruction::LShr, args[1], Val(w, w - k))) : args[0];
      else r2 = k ? vbin(Instruction::Or, vbin(Instruction::Shl, args[0], Val(w, w - k)), vbin(Instruction::LShr, args[1], Val(w, k))) : args[1];
      setreg(s, cb, r2); break; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      Val x = args[0], y = args[1]; unsigned w = x.w; Val res, ov; Val z0(w, (u64)0);
      E tx = bvterm(x), ty = bvterm(y);
      auto B = [&](Z3_ast noov) { return vnot(fromterm(1, E(noov))); };
      if (id == Intrinsic::uadd_with_overflow) { res = vbin(Instruction::Add, x, y); ov = vcmp(CmpInst::ICMP_ULT, res, x); }
      else if (id == Intrinsic::usub_with_overflow) { res = vbin(Instruction::Sub, x, y); ov = vcmp(CmpInst::ICMP_ULT, x, y); }
      else if (id == Intrinsic::sadd_with_overflow) { res = vbin(Instruction::Add, x, y); ov = vor1(B(Z3_mk_bvadd_no_overflow(Z, tx.a, ty.a, true)), B(Z3_mk_bvadd_no_underflow(Z, tx.a, ty.a))); }
      else if (id == Intrinsic::ssub_with_overflow) { res = vbin(Instruction::Sub, x, y); ov = vor1(B(Z3_mk_bvsub_no_overflow(Z, tx.a, ty.a)), B(Z3_mk_bvsub_no_underflow(Z, tx.a, ty.a, true))); }
      else if (id == Intrinsic::umul_with_overflow) { res = vbin(Instruction::Mul, x, y); ov = B(Z3_mk_bvmul_no_overflow(Z, tx.a, ty.a, false)); }
      else { res = vbin(Instruction::Mul, x, y); ov = vor1(B(Z3_mk_bvmul_no_overflow(Z, tx.a, ty.a, true)), B(Z3_mk_bvmul_no_underflow(Z, tx.a, ty.a))); }
      Val ag; ag.agg = std::make_shared<std::vector<Val>>(); ag.agg->push_back(res); ag.agg->push_back(ov); setreg(s, cb, ag); break; }
    case Intrinsic::vastart: { // all variadic arguments in the overflow area (x86-64 va_list)
      Frame &fr = s.st().back();
      u64 k = fr.varargs.size();
      ObjP &o = allocobj(s, k * 8 + 8, 1, "varargs");
      for (u64 i = 0; i < k; i++) writemem(*o, i * 8, vzext(fr.varargs[i], 64), 8);
      u64 b = o->base;
      s.st().back().allocas.push_back(b);
      storemem(s, args[0], Val(32, (u64)48), 4);
      storemem(s, vbin(Instruction::Add, args[0], Val(64, (u64)4)), Val(32, (u64)176), 4);
      storemem(s, vbin(Instruction::Add, args[0], Val(64, (u64)8)), Val(64, b), 8);
      storemem(s, vbin(Instruction::Add, args[0], Val(64, (u64)16)), Val(64, (u64)0), 8);
      break; }
    case Intrinsic::vacopy: { std::vector<Val> a2 = {args[0], args[1], Val(64, (u64)24)}; intrinsic(s, cb, "memmove", a2, r); break; }
    default: throw EngineError{"intrinsic " + n.str()};
    }
    ++s.st().back().it;
    return;
  }
  for (auto &u : cb->args()) args.push_back(get(s, u));
  if (f->isDeclaration() || n.starts_with("vf_")) {
    Val r;
    if (f->isDeclaration()) {
      unsigned tid = s.cur;
      if (intrinsic(s, cb, n, args, r)) {
        if (n == "vf_thread_switch") return;
        (void)tid;
        if (!cb->getType()->isVoidTy()) { Val v = r; if (!v.agg) { if (v.w == 0) v = zeroof(cb->getType()); else if (v.w != bits(cb->getType())) v = v.w > bits(cb->getType()) ? vextract(v, 0, bits(cb->getType())) : vzext(v, bits(cb->getType())); } setreg(s, cb, v); }
        ++s.st().back().it;
        return;
      }
      throw EngineError{"call to unmodelled external function " + n.str()};
    }
  }
  enter(s, f, args, cb);
}

static void divcheck(State &s, const Val &d) {
  Val z = veq(d, Val(d.w, (u64)0));
  if (!z.sym()) { if (z.c) { violation(s, "arith", "division by zero", s.model); throw PathEnd(); } return; }
  ModelP m;
  if (checksat(s, z, &m)) {
    violation(s, "arith", "division by zero", m);
    Val ok = vnot(z); ModelP m2;
    if (!checksat(s, ok, &m2)) throw PathEnd();
    addcons(s, ok); s.model = m2;
  }
}
static void step(State &s) {
  Frame &f = s.st().back();
  Instruction *I = &*f.it;
  ninstr++;
  if (++s.steps > maxsteps) { violation(s, "steps", "step budget exceeded (non-termination)", nullptr); throw PathEnd(); }
  switch (I->getOpcode()) {
  case Instruction::Alloca: {
    auto *ai = cast<AllocaInst>(I);
    u64 n = concretize(s, get(s, ai->getArraySize())) * DL->getTypeAllocSize(ai->getAllocatedType());
    ObjP &o = allocobj(s, n, 1, "stack");
    if (stackfill.sym()) { for (u64 i = 0; i < n && i < 65536; i++) o->sym[i] = SB{stackfill.s, 0, 1}; } else memset(o->data.data(), stackfill.c, n);
    u64 b = o->base;
    s.st().back().allocas.push_back(b);
    setreg(s, I, Val(64, b));
    break;
  }
  case Instruction::Load: setreg(s, I, loadty(s, get(s, I->getOperand(0)), I->getType())); break;
  case Instruction::Store: storety(s, get(s, I->getOperand(1)), get(s, I->getOperand(0)), I->getOperand(0)->getType()); break;
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    Val p = get(s, g->getPointerOperand());
    Type *ty = g->getSourceElementType();
    bool first = true;
    for (auto &ix : g->indices()) {
      if (!first) if (auto *st = dyn_cast<StructType>(ty)) {
        unsigned k = cast<ConstantInt>(ix)->getZExtValue();
        p = vbin(Instruction::Add, p, Val(64, DL->getStructLayout(st)->getElementOffset(k)));
        ty = st->getElementType(k);
        continue;
      }
      Type *et = first ? ty : cast<ArrayType>(ty)->getElementType();
      Val v = vsext(get(s, ix), 64);
      p = vbin(Instruction::Add, p, vbin(Instruction::Mul, v, Val(64, DL->getTypeAllocSize(et).getFixedValue())));
      ty = et; first = false;
    }
    setreg(s, I, p);
    break;
  }
  case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    setreg(s, I, vbin(I->getOpcode(), get(s, I->getOperand(0)), get(s, I->getOperand(1)))); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val d = get(s, I->getOperand(1)); divcheck(s, d);
    setreg(s, I, vbin(I->getOpcode(), get(s, I->getOperand(0)), d)); break; }
  case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
    Val d = get(s, I->getOperand(1));
    Val bad = vcmp(CmpInst::ICMP_UGE, d, Val(d.w, (u64)d.w));
    ModelP m;
    if (bad.sym() ? checksat(s, bad, &m) : bad.c) { violation(s, "arith", "shift exponent out of range", m); Val ok = vnot(bad); ModelP m2; if (!ok.sym() || !checksat(s, ok, &m2)) throw PathEnd(); addcons(s, ok); s.model = m2; }
    setreg(s, I, vbin(I->getOpcode(), get(s, I->getOperand(0)), d)); break; }
  case Instruction::ICmp: setreg(s, I, vcmp(cast<ICmpInst>(I)->getPredicate(), get(s, I->getOperand(0)), get(s, I->getOperand(1)))); break;
  case Instruction::Trunc: setreg(s, I, vextract(get(s, I->getOperand(0)), 0, bits(I->getType()))); break;
  case Instruction::ZExt: setreg(s, I, vzext(get(s, I->getOperand(0)), bits(I->getType()))); break;
  case Instruction::SExt: setreg(s, I, vsext(get(s, I->getOperand(0)), bits(I->getType()))); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = get(s, I->getOperand(0)); unsigned w = bits(I->getType()); setreg(s, I, w < v.w ? vextract(v, 0, w) : vzext(v, w)); break; }
  case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: setreg(s, I, get(s, I->getOperand(0))); break;
  case Instruction::Select: {
    Val c = get(s, I->getOperand(0)), a = get(s, I->getOperand(1)), b = get(s, I->getOperand(2));
    if (c.sym() && a.agg) c = Val(1, concretize(s, c));
    setreg(s, I, vite(c, a, b)); break; }
  case Instruction::ExtractValue: { Val v = get(s, I->getOperand(0)); for (unsigned k : cast<ExtractValueInst>(I)->indices()) { Val t = (*v.agg)[k]; v = t; } setreg(s, I, v); break; }
  case Instruction::InsertValue: {
    Val v = get(s, I->getOperand(0)); auto idx = cast<InsertValueInst>(I)->getIndices();
    std::function<Val(Val, unsigned)> ins = [&](Val x, unsigned d) -> Val { if (d == idx.size()) return get(s, I->getOperand(1)); Val y; y.agg = std::make_shared<std::vector<Val>>(*x.agg); (*y.agg)[idx[d]] = ins((*x.agg)[idx[d]], d + 1); return y; };
    setreg(s, I, ins(v, 0)); break; }
  case Instruction::Br: {
    auto *b = cast<BranchInst>(I);
    if (b->isUnconditional()) { gotobb(s, b->getSuccessor(0)); return; }
    Val c = get(s, b->getCondition());
    bool t;
    if (!c.sym()) t = c.c;
    else {
      needmodel(s);
      bool side = evalm(s.model, c);
      t = decide(s, c, [&](State &o) { gotobb(o, b->getSuccessor(side ? 1 : 0)); });
    }
    gotobb(s, b->getSuccessor(t ? 0 : 1));
    return;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    Val v = get(s, sw->getCondition());
    if (!v.sym()) {
      BasicBlock *d = sw->getDefaultDest();
      for (auto &k : sw->cases()) if (k.getCaseValue()->getZExtValue() == v.c) { d = k.getCaseSuccessor(); break; }
      gotobb(s, d); return;
    }
    needmodel(s);
    u64 x = evalm(s.model, v);
    BasicBlock *d = sw->getDefaultDest(); bool isdef = true;
    for (auto &k : sw->cases()) if (k.getCaseValue()->getZExtValue() == x) { d = k.getCaseSuccessor(); isdef = false; break; }
    Val in(1, (u64)0); // value leads to d
    if (!isdef) { for (auto &k : sw->cases()) if (k.getCaseSuccessor() == d) in = vor1(in, veq(v, Val(v.w, k.getCaseValue()->getZExtValue()))); }
    else { in = Val(1, (u64)1); for (auto &k : sw->cases()) if (k.getCaseSuccessor() != d) in = vand1(in, vnot(veq(v, Val(v.w, k.getCaseValue()->getZExtValue())))); }
    if (!isdef && d == sw->getDefaultDest()) in = veq(v, Val(v.w, x));
    decide(s, in, [](State &) {}); // the copy re-executes the switch
    gotobb(s, d);
    return;
  }
  case Instruction::Ret: { auto *r = cast<ReturnInst>(I); Val v; if (r->getReturnValue()) v = get(s, r->getReturnValue()); doret(s, v); return; }
  case Instruction::Call: docall(s, cast<CallBase>(I)); return;
  case Instruction::Unreachable: violation(s, "abort", "unreachable code reached", nullptr); throw PathEnd();
  case Instruction::Fence: break;
  case Instruction::AtomicRMW: {
    auto *r = cast<AtomicRMWInst>(I); Val p = get(s, r->getPointerOperand()), v = get(s, r->getValOperand()), o = loadty(s, p, v.w ? r->getType() : r->getType()), n;
    switch (r->getOperation()) { case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Add: n = vbin(Instruction::Add, o, v); break; case AtomicRMWInst::Sub: n = vbin(Instruction::Sub, o, v); break; case AtomicRMWInst::And: n = vbin(Instruction::And, o, v); break; case AtomicRMWInst::Or: n = vbin(Instruction::Or, o, v); break; default: throw EngineError{"atomicrmw"}; }
    storety(s, p, n, r->getType()); setreg(s, I, o); break; }
  case Instruction::AtomicCmpXchg: {
    auto *r = cast<AtomicCmpXchgInst>(I); Val p = get(s, r->getPointerOperand()), e = get(s, r->getCompareOperand()), n = get(s, r->getNewValOperand());
    Val o = loadty(s, p, r->getCompareOperand()->getType()), c = veq(o, e);
    storety(s, p, vite(c, n, o), r->getCompareOperand()->getType());
    Val ag; ag.agg = std::make_shared<std::vector<Val>>(); ag.agg->push_back(o); ag.agg->push_back(c); setreg(s, I, ag); break; }
  default: throw EngineError{std::string("unsupported instruction ") + I->getOpcodeName()};
  }
  ++s.st().back().it;
}

static std::string jstr(const std::string &x) { std::string r = "\""; for (char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if ((unsigned char)c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
static void jin(std::ostream &o, const std::vector<std::pair<unsigned, u64>> &v) { o << "["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << "[" << v[i].first / 8 << "," << v[i].second << "]"; o << "]"; }

int main(int argc, char **argv) {
  std::string out, entry = "harness", error;
  std::vector<std::string> repo, own_;
  int hf = -1, sf = -1;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&]() { if (i + 1 >= argc) { std::cerr << "usage\n"; exit(4); } return std::string(argv[++i]); };
    if (a == "-r") repo.push_back(nx()); else if (a == "-o") out = nx(); else if (a == "--entry") entry = nx();
    else if (a == "--timeout") tlimit = std::stod(nx()); else if (a == "--smt-timeout") smt_to = std::stoi(nx());
    else if (a == "--max-steps") maxsteps = std::stoull(nx()); else if (a == "--max-depth") maxdepth = std::stoull(nx());
    else if (a == "--case") { std::string c = nx(); cases[std::stoi(c)] = std::stoull(c.substr(c.find('=') + 1)); }
    else if (a == "--samples") maxsamples = std::stoi(nx()); else if (a == "--max-viol") maxviol = std::stoi(nx());
    else if (a == "--heap-fill") hf = std::stoi(nx()); else if (a == "--stack-fill") sf = std::stoi(nx());
    else if (a == "--root") ownroot = nx() + "/";
    else if (a == "--trace") trace = true;
    else own_.push_back(a);
  }
  t0 = now();
  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, z3err);
  S = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, S);
  { Z3_params p = Z3_mk_params(Z); Z3_params_inc_ref(Z, p); Z3_params_set_uint(Z, p, Z3_mk_string_symbol(Z, "timeout"), 4000); Z3_solver_set_params(Z, S, p); }
  LLVMContext C;
  SMDiagnostic d;
  std::vector<std::unique_ptr<Module>> mods;
  std::set<std::string> defined;
  for (auto &f : own_) { auto m = parseIRFile(f, d, C); if (!m) { std::cerr << "vfsym: cannot read " << f << "\n"; return 4; } for (auto &fn : *m) if (!fn.isDeclaration()) defined.insert(fn.getName().str()); mods.push_back(std::move(m)); }
  for (auto &f : repo) {
    auto m = parseIRFile(f, d, C); if (!m) { std::cerr << "vfsym: cannot read " << f << "\n"; return 4; }
    std::vector<Function *> fs; for (auto &fn : *m) if (fn.isDeclaration() && defined.count("vf_r_" + fn.getName().str())) fs.push_back(&fn);
    for (auto *fn : fs) fn->setName("vf_r_" + fn->getName().str());
    mods.push_back(std::move(m));
  }
  M = std::move(mods[0]);
  { Linker L(*M); for (size_t i = 1; i < mods.size(); i++) if (L.linkInModule(std::move(mods[i]))) { std::cerr << "vfsym: link failed\n"; return 4; } }
  DL = &M->getDataLayout();
  Function *h = M->getFunction(entry);
  if (!h || h->isDeclaration()) { std::cerr << "vfsym: no function " << entry << "\n"; return 4; }
  bool complete = true;
  try {
    heapfill = Val(8, (u64)(hf < 0 ? 0xbe : hf)); stackfill = Val(8, (u64)(sf < 0 ? 0xfe : sf));
    auto s = std::make_unique<State>();
    s->th.emplace_back();
    u64 fa = 0x5000000;
    for (auto &f : *M) { gaddr[&f] = fa; faddr[fa] = &f; fa += 16; }
    for (auto &g : M->globals()) { u64 n = DL->getTypeAllocSize(g.getValueType()); ObjP &o = allocobj(*s, n ? n : 1, g.isConstant() ? 3 : 2, "global"); gaddr[&g] = o->base; if (g.isDeclaration()) { o->kind = 2; } }
    for (auto &g : M->globals()) if (g.hasInitializer()) { ObjP *o = findobj(*s, gaddr[&g]); initglobal(**o, 0, g.getInitializer()); }
    enter(*s, h, {}, nullptr);
    work.push_back(std::move(s));
    while (!work.empty() && viols.size() < maxviol) {
      StateP cur = std::move(work.back());
      work.pop_back();
      try {
        for (unsigned k = 0;; k++) {
          step(*cur);
          if ((k & 1023) == 0 && now() - t0 > tlimit) throw EngineError{"time limit"};
        }
      } catch (PathEnd &) {
      } catch (EngineError &e) { throw EngineError{e.msg + " at " + where(*cur)}; }
    }
    if (!work.empty()) complete = false;
  } catch (EngineError &e) { complete = false; error = e.msg; }
  std::ofstream fo; std::ostream *os = &std::cout;
  if (!out.empty()) { fo.open(out); os = &fo; }
  struct rusage ru; getrusage(RUSAGE_SELF, &ru);
  if (cover) {
    std::set<std::string> ls;
    for (BasicBlock *b : covered) {
      Function *fn = b->getParent();
      if (!info(fn).repo || !fn->getSubprogram()) continue;
      for (auto &i : *b) if (auto &dl = i.getDebugLoc()) ls.insert(fn->getSubprogram()->getFilename().str() + ":" + std::to_string(dl.getLine()));
    }
    std::ofstream co(cover, std::ios::app);
    std::string all; for (auto &l : ls) all += l + "\n";
    co << all;
  }
  *os << "{\"complete\":" << (complete ? "true" : "false") << ",\"error\":" << jstr(error) << ",\"paths\":" << npaths << ",\"pruned\":" << npruned << ",\"forks\":" << nforks << ",\"instructions\":" << ninstr
      << ",\"queries\":" << nq << ",\"sat\":" << nsat << ",\"unsat\":" << nunsat << ",\"assertions\":" << nasserts << ",\"hard_queries\":" << nhard << ",\"solver_s\":" << tsolve << ",\"wall_s\":" << now() - t0 << ",\"longest_path\":" << longest << ",\"maxrss_mb\":" << ru.ru_maxrss / 1024 << ",\"pending\":" << work.size();
  *os << ",\"tags\":["; { bool c = false; for (auto &t : alltags) { *os << (c ? "," : "") << jstr(t); c = true; } }
  *os << "],\"functions\":["; { bool c = false; for (auto &t : funcs) { *os << (c ? "," : "") << jstr(t); c = true; } }
  *os << "],\"violations\":["; for (size_t i = 0; i < viols.size(); i++) { *os << (i ? "," : "") << "{\"kind\":" << jstr(viols[i].kind) << ",\"msg\":" << jstr(viols[i].msg) << ",\"where\":" << jstr(viols[i].where) << ",\"in\":"; jin(*os, viols[i].in); *os << "}"; }
  *os << "],\"samples\":["; for (size_t i = 0; i < samples.size(); i++) { *os << (i ? "," : "") << "{\"in\":"; jin(*os, samples[i].in); *os << ",\"obs\":["; for (size_t k = 0; k < samples[i].obs.size(); k++) *os << (k ? "," : "") << samples[i].obs[k]; *os << "]}"; }
  *os << "]}\n";
  os->flush();
  _Exit(error.empty() ? (viols.empty() ? 0 : 1) : 4);
}
