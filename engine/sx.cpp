// sx: a small symbolic executor for LLVM bitcode, deciding with Z3.
//
// Executes main() of a linked bitcode module (the real code under test plus a
// harness).  Harness inputs are symbolic bit-vectors; every branch on a
// symbolic condition forks after a satisfiability query, so each explored path
// stands for all input values that satisfy its path condition.  Assertions and
// memory accesses are decided by the solver for all values on the path.
// Memory is byte-accurate with concrete object addresses; every access is
// bounds- and lifetime-checked.
//
// Output: one JSON object on stdout.

#include <llvm/ADT/SmallString.h>
#include <unistd.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <z3.h>

#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace llvm;
using std::string;
using std::vector;

static Z3_context Z;

struct Ast {
  Z3_ast a = nullptr;
  Ast() {}
  Ast(Z3_ast x) : a(x) { if (a) Z3_inc_ref(Z, a); }
  Ast(const Ast &o) : a(o.a) { if (a) Z3_inc_ref(Z, a); }
  Ast(Ast &&o) noexcept : a(o.a) { o.a = nullptr; }
  ~Ast() { if (a) Z3_dec_ref(Z, a); }
  Ast &operator=(const Ast &o) {
    if (o.a) Z3_inc_ref(Z, o.a);
    if (a) Z3_dec_ref(Z, a);
    a = o.a;
    return *this;
  }
  Ast &operator=(Ast &&o) noexcept { std::swap(a, o.a); return *this; }
  operator bool() const { return a != nullptr; }
};

[[noreturn]] static void fatal(const string &m) {
  fprintf(stderr, "sx: fatal: %s\n", m.c_str());
  exit(3);
}

static double now() {
  return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

// ---------------------------------------------------------------- values ---

struct Val {
  unsigned w = 0;          // bit width; 0: void / aggregate
  uint64_t c = 0;          // concrete value when !e (w <= 64)
  Ast e;                   // Bool sort when w == 1, BitVec(w) otherwise
  std::shared_ptr<vector<Val>> agg;
  bool sym() const { return e.a != nullptr; }
};

static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
static int64_t sextw(uint64_t v, unsigned w) {
  if (w >= 64) return (int64_t)v;
  uint64_t m = 1ULL << (w - 1);
  v &= maskw(w);
  return (int64_t)((v ^ m) - m);
}

static std::unordered_map<unsigned, Ast> sortcache;
static Z3_sort bvsort(unsigned w) {
  auto it = sortcache.find(w);
  if (it != sortcache.end()) return (Z3_sort)it->second.a;
  Z3_sort s = Z3_mk_bv_sort(Z, w);
  sortcache[w] = Ast(Z3_sort_to_ast(Z, s));
  return s;
}

static Val mkc(unsigned w, uint64_t c) {
  Val v;
  v.w = w;
  if (w <= 64) {
    v.c = c & maskw(w);
  } else {
    v.e = Ast(Z3_mk_unsigned_int64(Z, c, bvsort(w)));
  }
  return v;
}

/* held numeral: an unheld temporary dies with the next Z3 call */
static Ast num(unsigned w, uint64_t v) { return Ast(Z3_mk_unsigned_int64(Z, v, bvsort(w))); }

static Ast ast(const Val &v) {
  if (v.e) return v.e;
  if (v.w == 1) return Ast(v.c ? Z3_mk_true(Z) : Z3_mk_false(Z));
  if (v.w == 0) fatal("ast of void");
  return Ast(Z3_mk_unsigned_int64(Z, v.c, bvsort(v.w)));
}

static uint64_t n_simplify;
// turn an expression into a value, folding numerals
static Val mks(unsigned w, Ast e, bool simp = true) {
  Val v;
  v.w = w;
  if (simp) {
    ++n_simplify;
    e = Ast(Z3_simplify(Z, e.a));
  }
  if (w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, e.a);
    if (b != Z3_L_UNDEF) {
      v.c = b == Z3_L_TRUE;
      return v;
    }
  } else if (w <= 64 && Z3_get_ast_kind(Z, e.a) == Z3_NUMERAL_AST) {
    uint64_t u;
    if (Z3_get_numeral_uint64(Z, e.a, &u)) {
      v.c = u & maskw(w);
      return v;
    }
  }
  v.e = e;
  return v;
}

static Val vnot1(const Val &a) {
  if (!a.sym()) return mkc(1, !a.c);
  return mks(1, Ast(Z3_mk_not(Z, a.e.a)));
}

// i1 as bitvector when mixing
static Ast bv1(const Val &v) {
  return Ast(Z3_mk_ite(Z, ast(v).a, num(1, 1).a, num(1, 0).a));
}

static Val vite(const Val &c, const Val &a, const Val &b) {
  if (!c.sym()) return c.c ? a : b;
  if (!a.sym() && !b.sym() && a.c == b.c) return a;
  if (a.sym() && b.sym() && a.e.a == b.e.a) return a;
  return mks(a.w, Ast(Z3_mk_ite(Z, c.e.a, ast(a).a, ast(b).a)));
}

static Val vzext(const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (!a.sym() && w <= 64) return mkc(w, a.c);
  if (a.w == 1)
    return mks(w, Ast(Z3_mk_ite(Z, ast(a).a, num(w, 1).a, num(w, 0).a)));
  return mks(w, Ast(Z3_mk_zero_ext(Z, w - a.w, ast(a).a)));
}
static Val vsext(const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (!a.sym() && w <= 64) return mkc(w, (uint64_t)sextw(a.c, a.w));
  if (a.w == 1) {
    Ast ones(Z3_mk_bvnot(Z, num(w, 0).a));
    return mks(w, Ast(Z3_mk_ite(Z, ast(a).a, ones.a, num(w, 0).a)));
  }
  return mks(w, Ast(Z3_mk_sign_ext(Z, w - a.w, ast(a).a)));
}
static Val vtrunc(const Val &a, unsigned w) {
  if (a.w == w) return a;
  if (!a.sym()) return mkc(w, a.c);
  if (w == 1)
    return mks(1, Ast(Z3_mk_eq(Z, Ast(Z3_mk_extract(Z, 0, 0, a.e.a)).a, num(1, 1).a)));
  return mks(w, Ast(Z3_mk_extract(Z, w - 1, 0, a.e.a)));
}

enum Op { ADD, SUB, MUL, UDIV, SDIV, UREM, SREM, AND, OR, XOR, SHL, LSHR, ASHR };

static Val vbin(Op op, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym() && w <= 64) {
    uint64_t x = a.c, y = b.c, r = 0;
    switch (op) {
    case ADD: r = x + y; break;
    case SUB: r = x - y; break;
    case MUL: r = x * y; break;
    case UDIV: r = y ? x / y : 0; break;
    case UREM: r = y ? x % y : x; break;
    case SDIV: { int64_t p = sextw(x, w), q = sextw(y, w); r = q == 0 ? 0 : (q == -1 ? (uint64_t)0 - (uint64_t)p : (uint64_t)(p / q)); break; }
    case SREM: { int64_t p = sextw(x, w), q = sextw(y, w); r = q == 0 || q == -1 ? 0 : (uint64_t)(p % q); break; }
    case AND: r = x & y; break;
    case OR: r = x | y; break;
    case XOR: r = x ^ y; break;
    case SHL: r = y >= w ? 0 : x << y; break;
    case LSHR: r = y >= w ? 0 : x >> y; break;
    case ASHR: r = (uint64_t)(sextw(x, w) >> (y >= w ? (w >= 64 ? 63 : w - 1) : y)); break;
    }
    return mkc(w, r);
  }
  if (w == 1) {
    Z3_ast p = ast(a).a;
    Ast pa(p);
    Ast qa = ast(b);
    Z3_ast v2[2] = {pa.a, qa.a};
    switch (op) {
    case AND: case MUL: return mks(1, Ast(Z3_mk_and(Z, 2, v2)));
    case OR: return mks(1, Ast(Z3_mk_or(Z, 2, v2)));
    case XOR: case ADD: case SUB: return mks(1, Ast(Z3_mk_xor(Z, pa.a, qa.a)));
    default: fatal("i1 op");
    }
  }
  // identities
  if (!b.sym() && w <= 64) {
    uint64_t y = b.c;
    if (y == 0 && (op == ADD || op == SUB || op == OR || op == XOR || op == SHL || op == LSHR || op == ASHR)) return a;
    if (y == 0 && (op == AND || op == MUL)) return mkc(w, 0);
    if (y == 1 && (op == MUL || op == UDIV || op == SDIV)) return a;
    if (y == maskw(w) && op == AND) return a;
  }
  if (!a.sym() && w <= 64) {
    uint64_t x = a.c;
    if (x == 0 && (op == ADD || op == OR || op == XOR)) return b;
    if (x == 0 && (op == AND || op == MUL || op == SHL || op == LSHR)) return mkc(w, 0);
    if (x == maskw(w) && op == AND) return b;
  }
  Ast p = ast(a), q = ast(b);
  Z3_ast r = nullptr;
  switch (op) {
  case ADD: r = Z3_mk_bvadd(Z, p.a, q.a); break;
  case SUB: r = Z3_mk_bvsub(Z, p.a, q.a); break;
  case MUL: r = Z3_mk_bvmul(Z, p.a, q.a); break;
  case UDIV: r = Z3_mk_bvudiv(Z, p.a, q.a); break;
  case SDIV: r = Z3_mk_bvsdiv(Z, p.a, q.a); break;
  case UREM: r = Z3_mk_bvurem(Z, p.a, q.a); break;
  case SREM: r = Z3_mk_bvsrem(Z, p.a, q.a); break;
  case AND: r = Z3_mk_bvand(Z, p.a, q.a); break;
  case OR: r = Z3_mk_bvor(Z, p.a, q.a); break;
  case XOR: r = Z3_mk_bvxor(Z, p.a, q.a); break;
  case SHL: r = Z3_mk_bvshl(Z, p.a, q.a); break;
  case LSHR: r = Z3_mk_bvlshr(Z, p.a, q.a); break;
  case ASHR: r = Z3_mk_bvashr(Z, p.a, q.a); break;
  }
  return mks(w, Ast(r));
}

static Val vicmp(CmpInst::Predicate pr, const Val &a, const Val &b) {
  unsigned w = a.w;
  if (!a.sym() && !b.sym() && w <= 64) {
    uint64_t x = a.c, y = b.c;
    int64_t p = sextw(x, w), q = sextw(y, w);
    bool r = false;
    switch (pr) {
    case CmpInst::ICMP_EQ: r = x == y; break;
    case CmpInst::ICMP_NE: r = x != y; break;
    case CmpInst::ICMP_UGT: r = x > y; break;
    case CmpInst::ICMP_UGE: r = x >= y; break;
    case CmpInst::ICMP_ULT: r = x < y; break;
    case CmpInst::ICMP_ULE: r = x <= y; break;
    case CmpInst::ICMP_SGT: r = p > q; break;
    case CmpInst::ICMP_SGE: r = p >= q; break;
    case CmpInst::ICMP_SLT: r = p < q; break;
    case CmpInst::ICMP_SLE: r = p <= q; break;
    default: fatal("icmp pred");
    }
    return mkc(1, r);
  }
  Ast p, q;
  if (w == 1 && pr != CmpInst::ICMP_EQ && pr != CmpInst::ICMP_NE) {
    p = bv1(a);
    q = bv1(b);
  } else {
    p = ast(a);
    q = ast(b);
  }
  Z3_ast r = nullptr;
  switch (pr) {
  case CmpInst::ICMP_EQ: r = Z3_mk_eq(Z, p.a, q.a); break;
  case CmpInst::ICMP_NE: r = Z3_mk_not(Z, Z3_mk_eq(Z, p.a, q.a)); break;
  case CmpInst::ICMP_UGT: r = Z3_mk_bvugt(Z, p.a, q.a); break;
  case CmpInst::ICMP_UGE: r = Z3_mk_bvuge(Z, p.a, q.a); break;
  case CmpInst::ICMP_ULT: r = Z3_mk_bvult(Z, p.a, q.a); break;
  case CmpInst::ICMP_ULE: r = Z3_mk_bvule(Z, p.a, q.a); break;
  case CmpInst::ICMP_SGT: r = Z3_mk_bvsgt(Z, p.a, q.a); break;
  case CmpInst::ICMP_SGE: r = Z3_mk_bvsge(Z, p.a, q.a); break;
  case CmpInst::ICMP_SLT: r = Z3_mk_bvslt(Z, p.a, q.a); break;
  case CmpInst::ICMP_SLE: r = Z3_mk_bvsle(Z, p.a, q.a); break;
  default: fatal("icmp pred");
  }
  return mks(1, Ast(r));
}

// ---------------------------------------------------------------- memory ---

struct SByte { Ast whole; unsigned idx = 0; };

struct Bytes {
  vector<uint8_t> c;
  vector<SByte> s;   // empty when fully concrete
};

struct Obj {
  uint64_t base = 0, size = 0;
  bool ro = false, freed = false, heap = false;
  string name;
  std::shared_ptr<Bytes> b;
};

static const DataLayout *DL;

struct OpInfo { int slot = -1; Val k; };
struct InstInfo {
  Instruction *I;
  int dst = -1;
  unsigned w = 0;
  unsigned line = 0;
  vector<OpInfo> ops;
};
struct BlockInfo {
  BasicBlock *B;
  vector<InstInfo> insts;
};
struct FuncInfo {
  Function *F;
  unsigned nslots = 0;
  std::unordered_map<BasicBlock *, unsigned> bidx;
  vector<BlockInfo> blocks;
  bool entered = false;
};

struct Frame {
  FuncInfo *f;
  unsigned blk = 0, ip = 0;
  int prev = -1;
  vector<Val> regs;
  vector<uint64_t> allocas;
  vector<Val> va;        // variable arguments, one 8-byte slot each
  // return linkage is in the caller's current instruction
};

struct Model {
  Z3_model m;
  Model(Z3_model x) : m(x) { if (m) Z3_model_inc_ref(Z, m); }
  ~Model() { if (m) Z3_model_dec_ref(Z, m); }
};

struct Input { Ast var; unsigned w; };

struct State {
  vector<Frame> stack;
  std::map<uint64_t, Obj> mem;
  vector<Ast> pc;
  std::shared_ptr<Model> model;
  vector<Input> inputs;
  uint64_t nextaddr = 0x600000000000ULL, nextstack = 0x7f0000000000ULL;
  uint64_t steps = 0;
  unsigned forks = 0;
};
typedef std::unique_ptr<State> SP;

// ---------------------------------------------------------------- solver ---

static Z3_solver S;
static uint64_t n_queries, n_cached, n_sat, n_unsat, n_unknown;
static double t_solver;

static Ast meval(const Model &m, const Ast &e) {
  Z3_ast r = nullptr;
  if (!Z3_model_eval(Z, m.m, e.a, true, &r)) fatal("model eval");
  return Ast(r);
}

// Input variables by AST, and the set of them in an expression.
struct VarSet {
  vector<uint64_t> w;
  void add(unsigned i) {
    if (w.size() <= i / 64) w.resize(i / 64 + 1);
    w[i / 64] |= 1ULL << (i % 64);
  }
  bool has(unsigned i) const { return i / 64 < w.size() && (w[i / 64] >> (i % 64) & 1); }
  void join(const VarSet &o) {
    if (w.size() < o.w.size()) w.resize(o.w.size());
    for (size_t i = 0; i < o.w.size(); ++i) w[i] |= o.w[i];
  }
  bool meets(const VarSet &o) const {
    size_t n = std::min(w.size(), o.w.size());
    for (size_t i = 0; i < n; ++i)
      if (w[i] & o.w[i]) return true;
    return false;
  }
};
static vector<Ast> allvars;
static std::unordered_map<Z3_ast, unsigned> varid;
static std::unordered_map<Z3_ast, std::shared_ptr<VarSet>> varcache;
static vector<Ast> varcache_keep;

static const VarSet &vars_of(Z3_ast a) {
  auto it = varcache.find(a);
  if (it != varcache.end()) return *it->second;
  auto vs = std::make_shared<VarSet>();
  auto vi = varid.find(a);
  if (vi != varid.end()) vs->add(vi->second);
  else if (Z3_get_ast_kind(Z, a) == Z3_APP_AST) {
    Z3_app ap = Z3_to_app(Z, a);
    unsigned n = Z3_get_app_num_args(Z, ap);
    for (unsigned i = 0; i < n; ++i) vs->join(vars_of(Z3_get_app_arg(Z, ap, i)));
  }
  varcache_keep.push_back(Ast(a));
  varcache[a] = vs;
  return *vs;
}

struct QKey {
  vector<unsigned> ids;
  bool operator==(const QKey &o) const { return ids == o.ids; }
};
struct QHash {
  size_t operator()(const QKey &k) const {
    size_t h = 1469598103934665603ULL;
    for (unsigned x : k.ids) h = (h ^ x) * 1099511628211ULL;
    return h;
  }
};
struct QRes {
  int r;
  vector<std::pair<unsigned, Ast>> vals;
  vector<Ast> keep;   // keeps the ids of the key from being reused
};
static std::unordered_map<QKey, QRes, QHash> qcache;

// Satisfiability of extra together with the path condition.  Only the
// constraints connected to extra through shared variables are sent: the rest
// is satisfiable on its own (the state's model satisfies it) and shares no
// variable.  1 sat, 0 unsat, -1 unknown.
static int query(State &st, const Ast &extra, std::shared_ptr<Model> *mo) {
  double t = now();
  VarSet vs = vars_of(extra.a);
  vector<const Ast *> rel;
  vector<char> used(st.pc.size());
  for (bool again = true; again;) {
    again = false;
    for (size_t i = 0; i < st.pc.size(); ++i) {
      if (used[i]) continue;
      const VarSet &c = vars_of(st.pc[i].a);
      if (!c.meets(vs)) continue;
      used[i] = 1;
      vs.join(c);
      rel.push_back(&st.pc[i]);
      again = true;
    }
  }
  QKey key;
  for (auto *a : rel) key.ids.push_back(Z3_get_ast_id(Z, a->a));
  std::sort(key.ids.begin(), key.ids.end());
  key.ids.push_back(Z3_get_ast_id(Z, extra.a));
  auto it = qcache.find(key);
  if (it == qcache.end()) {
    QRes q;
    Z3_solver_push(Z, S);
    for (auto *a : rel) Z3_solver_assert(Z, S, a->a);
    Z3_solver_assert(Z, S, extra.a);
    Z3_lbool r = Z3_solver_check(Z, S);
    ++n_queries;
    q.r = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    if (q.r == 1) {
      ++n_sat;
      Z3_model m = Z3_solver_get_model(Z, S);
      Model mm(m);
      for (unsigned v = 0; v < allvars.size(); ++v)
        if (vs.has(v)) q.vals.push_back({v, meval(mm, allvars[v])});
    } else if (q.r == 0)
      ++n_unsat;
    else
      ++n_unknown;
    Z3_solver_pop(Z, S, 1);
    for (auto *a : rel) q.keep.push_back(*a);
    q.keep.push_back(extra);
    it = qcache.emplace(std::move(key), std::move(q)).first;
  } else
    ++n_cached;
  QRes &q = it->second;
  if (q.r == 1 && mo) {
    Z3_model nm = Z3_mk_model(Z);
    auto m = std::make_shared<Model>(nm);
    for (auto &in : st.inputs) {
      unsigned v = varid[in.var.a];
      if (vs.has(v)) continue;
      Ast x = st.model ? meval(*st.model, in.var) : Ast();
      if (x) Z3_add_const_interp(Z, nm, Z3_get_app_decl(Z, Z3_to_app(Z, in.var.a)), x.a);
    }
    for (auto &p : q.vals)
      Z3_add_const_interp(Z, nm, Z3_get_app_decl(Z, Z3_to_app(Z, allvars[p.first].a)), p.second.a);
    *mo = m;
  }
  t_solver += now() - t;
  return q.r;
}

static uint64_t mevalu(const Model &m, const Val &v) {
  if (!v.sym()) return v.c;
  Ast r = meval(m, v.e);
  if (v.w == 1) {
    Z3_lbool b = Z3_get_bool_value(Z, r.a);
    if (b == Z3_L_UNDEF) {
      r = Ast(Z3_simplify(Z, r.a));
      b = Z3_get_bool_value(Z, r.a);
    }
    return b == Z3_L_TRUE;
  }
  uint64_t u = 0;
  if (!Z3_get_numeral_uint64(Z, r.a, &u)) {
    r = Ast(Z3_simplify(Z, r.a));
    if (!Z3_get_numeral_uint64(Z, r.a, &u)) fatal("model numeral");
  }
  return u;
}

// ------------------------------------------------------------- reporting ---

struct Viol {
  string kind, msg, where;
  vector<uint64_t> inputs;
};
static vector<Viol> viols;
static std::set<string> violkeys;
static std::map<string, uint64_t> asserts;  // per assertion: decided instances
static uint64_t n_memchecks, n_paths, n_witness, n_pruned, n_steps, n_forks, n_limit;
static vector<uint64_t> witness_inputs;
static bool have_witness;
static std::set<string> reached, declared_reach;
static std::set<string> funcs_run;
static std::set<string> notes;
static bool inconclusive;
static uint64_t opt_maxsteps = 3000000, opt_maxpaths = 2000000;
static double opt_timeout = 600, t_start;
static unsigned opt_maxviol = 4;

static string esc(const string &s) {
  string o;
  for (unsigned char ch : s) {
    if (ch == '"' || ch == '\\') { o += '\\'; o += ch; }
    else if (ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
    else o += ch;
  }
  return o;
}

static string srcloc(const Instruction *I) {
  const DebugLoc &d = I->getDebugLoc();
  string fn = I->getFunction()->getName().str();
  if (d) {
    auto *sc = cast<DIScope>(d.getScope());
    return sc->getFilename().str() + ":" + std::to_string(d.getLine()) + " " + fn;
  }
  return fn;
}

static string where(State &st) {
  string s;
  int n = 0;
  for (size_t i = st.stack.size(); i-- > 0 && n < 6; ++n) {
    Frame &f = st.stack[i];
    const Instruction *I = f.f->blocks[f.blk].insts[f.ip].I;
    if (n) s += " < ";
    s += srcloc(I);
  }
  return s;
}

static vector<uint64_t> inputs_of(State &st, const Model &m) {
  vector<uint64_t> r;
  for (auto &in : st.inputs) {
    Val v;
    v.w = in.w;
    v.e = in.var;
    r.push_back(mevalu(m, v));
  }
  return r;
}

static void report(State &st, const string &kind, const string &msg, const Model &m) {
  string w = where(st);
  string key = kind + "|" + msg + "|" + w.substr(0, w.find(" < "));
  if (kind == "assert") key = kind + "|" + msg;
  if (violkeys.count(key)) return;
  violkeys.insert(key);
  viols.push_back({kind, msg, w, inputs_of(st, m)});
}

struct KillPath {};
struct Refork {};   // current instruction must be re-executed (state changed)

static vector<SP> worklist;

static void add_pc(State &st, const Ast &c) { st.pc.push_back(c); }

static SP clone(State &st) {
  ++n_forks;
  SP n(new State(st));
  n->forks++;
  return n;
}

// Make v concrete on this path, forking off all other values.
static uint64_t concretize(State &st, const Val &v) {
  if (!v.sym()) return v.c;
  uint64_t x = mevalu(*st.model, v);
  Val eq = vicmp(CmpInst::ICMP_EQ, v, mkc(v.w, x));
  if (!eq.sym()) return x;
  Val ne = vnot1(eq);
  std::shared_ptr<Model> m2;
  int r = query(st, ne.e, &m2);
  if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
  if (r == 1) {
    SP o = clone(st);
    add_pc(*o, ne.e);
    o->model = m2;
    worklist.push_back(std::move(o));
  }
  add_pc(st, eq.e);
  return x;
}

// take both sides of a symbolic condition; returns the side this state keeps.
// the other side re-executes the current instruction.
static bool fork_cond(State &st, const Val &c) {
  if (!c.sym()) return c.c;
  bool side = mevalu(*st.model, c);
  Val other = side ? vnot1(c) : c;
  Val mine = side ? c : vnot1(c);
  std::shared_ptr<Model> m2;
  int r = query(st, other.e, &m2);
  if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
  if (r == 1) {
    SP o = clone(st);
    add_pc(*o, other.e);
    o->model = m2;
    worklist.push_back(std::move(o));
    add_pc(st, mine.e);
  }
  return side;
}

// c ? a : b, where c is first decided if it has only one value on this path
static Val pick(State &st, const Val &c, const Val &a, const Val &b) {
  if (!c.sym()) return c.c ? a : b;
  bool side = mevalu(*st.model, c);
  std::shared_ptr<Model> m2;
  if (query(st, (side ? vnot1(c) : c).e, &m2) == 0) return side ? a : b;
  return vite(c, a, b);
}

static Obj *findobj(State &st, uint64_t a) {
  auto it = st.mem.upper_bound(a);
  if (it == st.mem.begin()) return nullptr;
  --it;
  Obj &o = it->second;
  if (a - o.base < o.size || (a == o.base && o.size == 0)) return &o;
  return nullptr;
}

static Bytes &wbytes(Obj &o) {
  if (o.b.use_count() > 1) o.b = std::make_shared<Bytes>(*o.b);
  return *o.b;
}

static uint64_t alloc_obj(State &st, uint64_t size, bool heap, const string &name, bool stack = false, uint8_t fill = 0xbe) {
  uint64_t a;
  if (size > (64u << 20)) return 0;
  if (stack) {
    a = st.nextstack;
    st.nextstack += ((size + 15) & ~15ULL) + 64;
  } else {
    a = st.nextaddr;
    st.nextaddr += ((size + 15) & ~15ULL) + 64;
  }
  Obj o;
  o.base = a;
  o.size = size;
  o.heap = heap;
  o.name = name;
  o.b = std::make_shared<Bytes>();
  o.b->c.assign(size, fill);
  st.mem[a] = std::move(o);
  return a;
}

static void memerr(State &st, const string &what, const Model &m) {
  report(st, "memory", what, m);
  throw KillPath();
}

static Ast byteast(const SByte &b) {
  return Ast(Z3_mk_extract(Z, b.idx * 8 + 7, b.idx * 8, b.whole.a));
}

static Val load_at(Obj &o, uint64_t off, unsigned n) {
  Bytes &b = *o.b;
  bool conc = true;
  if (!b.s.empty())
    for (unsigned i = 0; i < n; ++i)
      if (b.s[off + i].whole) { conc = false; break; }
  if (conc) {
    if (n <= 8) {
      uint64_t v = 0;
      for (unsigned i = 0; i < n; ++i) v |= (uint64_t)b.c[off + i] << (8 * i);
      return mkc(8 * n, v);
    }
  } else {
    SByte &f = b.s[off];
    if (f.whole && f.idx == 0) {
      bool same = true;
      for (unsigned i = 1; i < n && same; ++i)
        same = b.s[off + i].whole.a == f.whole.a && b.s[off + i].idx == i;
      if (same) {
        unsigned ww = Z3_get_bv_sort_size(Z, Z3_get_sort(Z, f.whole.a));
        if (ww == 8 * n) return mks(8 * n, f.whole, false);
      }
    }
  }
  Ast r;
  for (unsigned i = 0; i < n; ++i) {
    Ast x;
    if (!b.s.empty() && b.s[off + i].whole) x = byteast(b.s[off + i]);
    else x = Ast(Z3_mk_unsigned_int64(Z, b.c[off + i], bvsort(8)));
    r = r ? Ast(Z3_mk_concat(Z, x.a, r.a)) : x;
  }
  return mks(8 * n, r);
}

static void store_at(Obj &o, uint64_t off, unsigned n, const Val &v) {
  Bytes &b = wbytes(o);
  if (!v.sym()) {
    for (unsigned i = 0; i < n; ++i) {
      b.c[off + i] = i < 8 ? (v.c >> (8 * i)) & 0xff : 0;
      if (!b.s.empty()) b.s[off + i].whole = Ast();
    }
  } else {
    if (b.s.empty()) b.s.resize(o.size);
    for (unsigned i = 0; i < n; ++i) {
      b.s[off + i].whole = v.e;
      b.s[off + i].idx = i;
    }
  }
}

static void check_access(State &st, Obj *o, uint64_t a, uint64_t n, bool wr, const Model &m) {
  ++n_memchecks;
  char buf[160];
  if (!o) {
    snprintf(buf, sizeof buf, "%s of %llu bytes at %s", wr ? "write" : "read", (unsigned long long)n,
             a < 4096 ? "null pointer" : "an address in no object");
    // name the neighbour below, for the reader
    auto it = st.mem.upper_bound(a);
    string extra;
    if (a >= 4096 && it != st.mem.begin()) {
      --it;
      extra = " (" + std::to_string(a - it->second.base) + " into " + it->second.name + " of size " +
              std::to_string(it->second.size) + ")";
    }
    memerr(st, string(buf) + extra, m);
  }
  if (o->freed) memerr(st, string(wr ? "write to" : "read of") + " freed object " + o->name, m);
  if (a - o->base + n > o->size)
    memerr(st, string(wr ? "write" : "read") + " past the end of " + o->name + " (offset " +
           std::to_string(a - o->base) + " size " + std::to_string(o->size) + ")", m);
  if (wr && o->ro) memerr(st, "write to constant " + o->name, m);
}

// constrain a symbolic address to one object; forks for the others
static Obj *resolve(State &st, const Val &addr, uint64_t n, bool wr, uint64_t &a0) {
  a0 = mevalu(*st.model, addr);
  Obj *o = findobj(st, a0);
  check_access(st, o, a0, n, wr, *st.model);
  Val lo = vicmp(CmpInst::ICMP_UGE, addr, mkc(64, o->base));
  Val hi = vicmp(CmpInst::ICMP_ULE, addr, mkc(64, o->base + o->size - n));
  Val in = vbin(AND, lo, hi);
  if (in.sym()) {
    Val out = vnot1(in);
    std::shared_ptr<Model> m2;
    int r = query(st, out.e, &m2);
    if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
    if (r == 1) {
      SP s2 = clone(st);
      add_pc(*s2, out.e);
      s2->model = m2;
      worklist.push_back(std::move(s2));
      add_pc(st, in.e);
    }
  }
  return findobj(st, a0);
}

// all feasible offsets of addr inside o (bounded)
static bool offsets(State &st, const Val &addr, uint64_t a0, vector<uint64_t> &out, size_t max) {
  bool complete = false;
  uint64_t a = a0;
  Val cond = mkc(1, 1);
  while (out.size() < max) {
    out.push_back(a);
    Val ne = vicmp(CmpInst::ICMP_NE, addr, mkc(64, a));
    cond = vbin(AND, cond, ne);
    if (!cond.sym()) { complete = true; break; }
    std::shared_ptr<Model> m2;
    int r = query(st, cond.e, &m2);
    if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
    if (r != 1) { complete = true; break; }
    a = mevalu(*m2, addr);
  }
  return complete;
}

static Val do_load(State &st, const Val &addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Val r;
  if (!addr.sym()) {
    Obj *o = findobj(st, addr.c);
    check_access(st, o, addr.c, n, false, *st.model);
    r = load_at(*o, addr.c - o->base, n);
  } else {
    uint64_t a0;
    Obj *o = resolve(st, addr, n, false, a0);
    vector<uint64_t> offs;
    if (!offsets(st, addr, a0, offs, 96)) {
      uint64_t a = concretize(st, addr);
      r = load_at(*o, a - o->base, n);
    } else {
      r = load_at(*o, offs[0] - o->base, n);
      for (size_t i = 1; i < offs.size(); ++i)
        r = vite(vicmp(CmpInst::ICMP_EQ, addr, mkc(64, offs[i])), load_at(*o, offs[i] - o->base, n), r);
    }
  }
  return vtrunc(r, w);
}

static void do_store(State &st, const Val &addr, const Val &v0) {
  unsigned n = (v0.w + 7) / 8;
  Val v = vzext(v0, 8 * n);
  if (!addr.sym()) {
    Obj *o = findobj(st, addr.c);
    check_access(st, o, addr.c, n, true, *st.model);
    store_at(*o, addr.c - o->base, n, v);
  } else {
    uint64_t a0;
    Obj *o = resolve(st, addr, n, true, a0);
    vector<uint64_t> offs;
    if (!offsets(st, addr, a0, offs, 64)) {
      uint64_t a = concretize(st, addr);
      store_at(*o, a - o->base, n, v);
    } else if (offs.size() == 1) {
      store_at(*o, offs[0] - o->base, n, v);
    } else {
      vector<Val> olds;
      for (uint64_t a : offs) olds.push_back(load_at(*o, a - o->base, n));
      for (size_t i = 0; i < offs.size(); ++i)
        store_at(*o, offs[i] - o->base, n, vite(vicmp(CmpInst::ICMP_EQ, addr, mkc(64, offs[i])), v, load_at(*o, offs[i] - o->base, n)));
    }
  }
}

// ------------------------------------------------------------- constants ---

static std::map<const GlobalValue *, uint64_t> gaddr;
static std::map<uint64_t, Function *> faddr;

static unsigned tywidth(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  return 0;
}

static Val constval(const Constant *c);

static uint64_t gepoff(const GEPOperator *g) {
  APInt off(64, 0);
  if (!g->accumulateConstantOffset(*DL, off)) fatal("constant gep");
  return off.getZExtValue();
}

static Val constval(const Constant *c) {
  if (auto *ci = dyn_cast<ConstantInt>(c)) {
    unsigned w = ci->getBitWidth();
    if (w <= 64) return mkc(w, ci->getZExtValue());
    Val v;
    v.w = w;
    SmallString<64> s;
    ci->getValue().toStringUnsigned(s);
    v.e = Ast(Z3_mk_numeral(Z, s.c_str(), bvsort(w)));
    return v;
  }
  if (isa<ConstantPointerNull>(c)) return mkc(64, 0);
  if (auto *gv = dyn_cast<GlobalValue>(c)) {
    if (auto *ga = dyn_cast<GlobalAlias>(gv)) return constval(ga->getAliasee());
    auto it = gaddr.find(gv);
    if (it == gaddr.end()) fatal("no address for global " + gv->getName().str());
    return mkc(64, it->second);
  }
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr:
      return vbin(ADD, constval(ce->getOperand(0)), mkc(64, gepoff(cast<GEPOperator>(ce))));
    case Instruction::BitCast:
    case Instruction::IntToPtr:
    case Instruction::PtrToInt:
    case Instruction::AddrSpaceCast: {
      Val v = constval(ce->getOperand(0));
      unsigned w = tywidth(ce->getType());
      return v.w < w ? vzext(v, w) : vtrunc(v, w);
    }
    case Instruction::Add: return vbin(ADD, constval(ce->getOperand(0)), constval(ce->getOperand(1)));
    case Instruction::Sub: return vbin(SUB, constval(ce->getOperand(0)), constval(ce->getOperand(1)));
    case Instruction::Trunc: return vtrunc(constval(ce->getOperand(0)), tywidth(ce->getType()));
    case Instruction::ICmp: return vicmp((CmpInst::Predicate)ce->getPredicate(), constval(ce->getOperand(0)), constval(ce->getOperand(1)));
    default: fatal(string("constant expr ") + ce->getOpcodeName());
    }
  }
  if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c) || isa<ConstantAggregate>(c)) {
    Type *t = c->getType();
    if (unsigned w = tywidth(t)) return mkc(w, 0);
    Val v;
    v.agg = std::make_shared<vector<Val>>();
    unsigned n = t->isStructTy() ? t->getStructNumElements() : t->getArrayNumElements();
    for (unsigned i = 0; i < n; ++i) v.agg->push_back(constval(c->getAggregateElement(i)));
    return v;
  }
  string s;
  raw_string_ostream os(s);
  c->print(os);
  fatal("constant " + s);
}

static void initbytes(Obj &o, uint64_t off, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) {
    uint64_t n = DL->getTypeStoreSize(t);
    for (uint64_t i = 0; i < n; ++i) o.b->c[off + i] = 0;
    return;
  }
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) {
    uint64_t es = cd->getElementByteSize();
    for (unsigned i = 0; i < cd->getNumElements(); ++i) {
      uint64_t v = cd->getElementAsInteger(i);
      for (uint64_t j = 0; j < es; ++j) o.b->c[off + i * es + j] = (v >> (8 * j)) & 0xff;
    }
    return;
  }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) {
    const StructLayout *sl = DL->getStructLayout(cs->getType());
    for (unsigned i = 0; i < cs->getNumOperands(); ++i) initbytes(o, off + sl->getElementOffset(i), cs->getOperand(i));
    return;
  }
  if (auto *ca = dyn_cast<ConstantArray>(c)) {
    uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType());
    for (unsigned i = 0; i < ca->getNumOperands(); ++i) initbytes(o, off + i * es, ca->getOperand(i));
    return;
  }
  if (t->isFloatingPointTy()) return;
  Val v = constval(c);
  store_at(o, off, (v.w + 7) / 8, v.w % 8 ? vzext(v, (v.w + 7) / 8 * 8) : v);
}

// ------------------------------------------------------------- functions ---

static std::unordered_map<Function *, std::unique_ptr<FuncInfo>> finfo;

static FuncInfo *getfi(Function *F) {
  auto &p = finfo[F];
  if (p) return p.get();
  p.reset(new FuncInfo());
  FuncInfo *fi = p.get();
  fi->F = F;
  std::unordered_map<Value *, int> slot;
  for (auto &a : F->args()) slot[&a] = fi->nslots++;
  for (auto &B : *F)
    for (auto &I : B)
      if (!I.getType()->isVoidTy()) slot[&I] = fi->nslots++;
  unsigned bi = 0;
  for (auto &B : *F) fi->bidx[&B] = bi++;
  for (auto &B : *F) {
    BlockInfo b;
    b.B = &B;
    for (auto &I : B) {
      InstInfo ii;
      ii.I = &I;
      if (!I.getType()->isVoidTy()) {
        ii.dst = slot[&I];
        ii.w = tywidth(I.getType());
      }
      for (auto &u : I.operands()) {
        OpInfo oi;
        Value *v = u.get();
        auto it = slot.find(v);
        if (it != slot.end()) oi.slot = it->second;
        else if (auto *c = dyn_cast<Constant>(v)) {
          if (!c->getType()->isFloatingPointTy() && !c->getType()->isVectorTy()) oi.k = constval(c);
        }
        ii.ops.push_back(oi);
      }
      b.insts.push_back(std::move(ii));
    }
    fi->blocks.push_back(std::move(b));
  }
  return fi;
}

static Val op(Frame &f, const InstInfo &ii, unsigned i) {
  const OpInfo &o = ii.ops[i];
  return o.slot >= 0 ? f.regs[o.slot] : o.k;
}

static void jump(State &st, Frame &f, BasicBlock *to) {
  f.prev = f.blk;
  BasicBlock *from = f.f->blocks[f.blk].B;
  f.blk = f.f->bidx[to];
  f.ip = 0;
  // phis in parallel
  BlockInfo &b = f.f->blocks[f.blk];
  vector<std::pair<int, Val>> upd;
  while (f.ip < b.insts.size() && isa<PHINode>(b.insts[f.ip].I)) {
    auto *ph = cast<PHINode>(b.insts[f.ip].I);
    int k = ph->getBasicBlockIndex(from);
    upd.push_back({b.insts[f.ip].dst, op(f, b.insts[f.ip], k)});
    ++f.ip;
  }
  for (auto &u : upd) f.regs[u.first] = std::move(u.second);
}

static string cstr(State &st, uint64_t a) {
  string s;
  Obj *o = findobj(st, a);
  if (!o) return "?";
  if (a - o->base > o->size) return "?";
  for (uint64_t i = a - o->base; i < o->size && o->b->c[i]; ++i) s += (char)o->b->c[i];
  return s;
}

static void do_memcpy(State &st, const Val &dv, const Val &sv, uint64_t n, bool move) {
  if (!n) return;
  uint64_t d = concretize(st, dv), s = concretize(st, sv);
  Obj *so = findobj(st, s);
  check_access(st, so, s, n, false, *st.model);
  Obj *dobj = findobj(st, d);
  check_access(st, dobj, d, n, true, *st.model);
  if (!move && s != d && s < d + n && d < s + n) memerr(st, "memcpy of overlapping ranges", *st.model);
  uint64_t soff = s - so->base, doff = d - dobj->base;
  vector<uint8_t> c(so->b->c.begin() + soff, so->b->c.begin() + soff + n);
  vector<SByte> sb;
  if (!so->b->s.empty()) sb.assign(so->b->s.begin() + soff, so->b->s.begin() + soff + n);
  Bytes &b = wbytes(*dobj);
  std::copy(c.begin(), c.end(), b.c.begin() + doff);
  if (!sb.empty()) {
    if (b.s.empty()) b.s.resize(dobj->size);
    std::copy(sb.begin(), sb.end(), b.s.begin() + doff);
  } else if (!b.s.empty()) {
    for (uint64_t i = 0; i < n; ++i) b.s[doff + i].whole = Ast();
  }
}

static void do_memset(State &st, const Val &dv, const Val &v, uint64_t n) {
  if (!n) return;
  uint64_t d = concretize(st, dv);
  Obj *o = findobj(st, d);
  check_access(st, o, d, n, true, *st.model);
  for (uint64_t i = 0; i < n; ++i) store_at(*o, d - o->base + i, 1, v);
}

static void do_free(State &st, uint64_t a) {
  if (!a) return;
  Obj *o = findobj(st, a);
  ++n_memchecks;
  if (!o || o->base != a || !o->heap) memerr(st, "free of an invalid pointer", *st.model);
  if (o->freed) memerr(st, "double free of " + o->name, *st.model);
  o->freed = true;
}

// printf-style formatting; forks on the number of digits of symbolic numbers
static int do_format(State &st, Frame &f, const InstInfo &ii, const string &fmt, unsigned argi, vector<Val> &out) {
  for (size_t i = 0; i < fmt.size(); ++i) {
    if (fmt[i] != '%') { out.push_back(mkc(8, (uint8_t)fmt[i])); continue; }
    ++i;
    int lng = 0;
    bool zero = false;
    unsigned width = 0;
    if (fmt[i] == '0') { zero = true; ++i; }
    while (fmt[i] >= '0' && fmt[i] <= '9') width = width * 10 + (fmt[i++] - '0');
    while (fmt[i] == 'l' || fmt[i] == 'h' || fmt[i] == 'z') { if (fmt[i] != 'h') ++lng; else --lng; ++i; }
    char cv = fmt[i];
    if (cv == '%') { out.push_back(mkc(8, '%')); continue; }
    Val a = op(f, ii, argi++);
    if (cv == 'c') { out.push_back(vtrunc(a, 8)); continue; }
    if (cv == 's') {
      uint64_t p = concretize(st, a);
      for (;; ++p) {
        Val ch = do_load(st, mkc(64, p), 8);
        if (fork_cond(st, vicmp(CmpInst::ICMP_EQ, ch, mkc(8, 0)))) break;
        out.push_back(ch);
      }
      continue;
    }
    unsigned base = cv == 'x' || cv == 'X' ? 16 : cv == 'o' ? 8 : 10;
    if (cv != 'd' && cv != 'i' && cv != 'u' && base == 10) fatal(string("format ") + fmt);
    if (lng == -1) a = (cv == 'd' || cv == 'i') ? vsext(vtrunc(a, 16), 32) : vzext(vtrunc(a, 16), 32);
    if (lng <= -2) a = (cv == 'd' || cv == 'i') ? vsext(vtrunc(a, 8), 32) : vzext(vtrunc(a, 8), 32);
    bool neg = false;
    if ((cv == 'd' || cv == 'i') && fork_cond(st, vicmp(CmpInst::ICMP_SLT, a, mkc(a.w, 0)))) {
      neg = true;
      a = vbin(SUB, mkc(a.w, 0), a);
    }
    unsigned nd = 1;
    uint64_t p = base;
    while (true) {
      if (a.w < 64 && p > maskw(a.w)) break;
      if (!fork_cond(st, vicmp(CmpInst::ICMP_UGE, a, mkc(a.w, p)))) break;
      ++nd;
      if (p > (~0ULL) / base) break;
      p *= base;
    }
    unsigned pad = width > nd + neg ? width - nd - neg : 0;
    if (!zero) while (pad) { out.push_back(mkc(8, ' ')); --pad; }
    if (neg) out.push_back(mkc(8, '-'));
    while (pad) { out.push_back(mkc(8, '0')); --pad; }
    vector<Val> ds;
    Val x = a;
    for (unsigned k = 0; k < nd; ++k) {
      Val d = vtrunc(vbin(UREM, x, mkc(a.w, base)), 8);
      if (base == 16)
        d = vite(vicmp(CmpInst::ICMP_ULT, d, mkc(8, 10)), vbin(ADD, d, mkc(8, '0')), vbin(ADD, d, mkc(8, (cv == 'x' ? 'a' : 'A') - 10)));
      else
        d = vbin(ADD, d, mkc(8, '0'));
      ds.push_back(d);
      x = vbin(UDIV, x, mkc(a.w, base));
    }
    while (!ds.empty()) { out.push_back(ds.back()); ds.pop_back(); }
  }
  return 0;
}

static bool builtin(State &st, Frame &f, InstInfo &ii, const CallBase *cb, const string &name, Val &ret) {
  auto A = [&](unsigned i) { return op(f, ii, i); };
  if (name == "vp_sx_input") {
    unsigned w = (unsigned)A(0).c;
    char nm[32];
    snprintf(nm, sizeof nm, "in%zu_%u", st.inputs.size(), w);
    Ast v(Z3_mk_const(Z, Z3_mk_string_symbol(Z, nm), bvsort(w)));
    if (!varid.count(v.a)) {
      varid[v.a] = allvars.size();
      allvars.push_back(v);
    }
    st.inputs.push_back({v, w});
    Val x;
    x.w = w;
    x.e = v;
    ret = vzext(x, 64);
    return true;
  }
  if (name == "vp_sx_assume") {
    Val c = vicmp(CmpInst::ICMP_NE, A(0), mkc(A(0).w, 0));
    if (!c.sym()) {
      if (!c.c) throw KillPath();
      return true;
    }
    if (mevalu(*st.model, c)) { add_pc(st, c.e); return true; }
    std::shared_ptr<Model> m;
    int r = query(st, c.e, &m);
    if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
    if (r != 1) throw KillPath();
    add_pc(st, c.e);
    st.model = m;
    return true;
  }
  if (name == "vp_sx_assert") {
    string msg = cstr(st, A(1).c);
    Val c = vicmp(CmpInst::ICMP_NE, A(0), mkc(A(0).w, 0));
    ++asserts[msg];
    if (!c.sym()) {
      if (!c.c) { report(st, "assert", msg, *st.model); throw KillPath(); }
      return true;
    }
    if (!mevalu(*st.model, c)) {
      report(st, "assert", msg, *st.model);
      std::shared_ptr<Model> m;
      int r = query(st, c.e, &m);
      if (r != 1) throw KillPath();
      add_pc(st, c.e);
      st.model = m;
      return true;
    }
    Val n = vnot1(c);
    std::shared_ptr<Model> m;
    int r = query(st, n.e, &m);
    if (r < 0) { inconclusive = true; notes.insert("solver unknown on an assertion"); }
    if (r == 1) {
      report(st, "assert", msg, *m);
      add_pc(st, c.e);
    }
    return true;
  }
  if (name == "vp_sx_bound") {
    Val c = vicmp(CmpInst::ICMP_NE, A(0), mkc(A(0).w, 0));
    if (!fork_cond(st, c)) {
      inconclusive = true;
      notes.insert("harness bound exceeded: " + cstr(st, A(1).c));
      throw KillPath();
    }
    return true;
  }
  if (name == "vp_sx_done") {
    ++n_witness;
    if (!have_witness) {
      have_witness = true;
      witness_inputs = inputs_of(st, *st.model);
    }
    throw KillPath();
  }
  if (name == "vp_sx_reach") {
    reached.insert(cstr(st, A(0).c));
    return true;
  }
  if (name == "vp_sx_concrete") {
    ret = mkc(64, concretize(st, A(0)));
    return true;
  }
  if (name == "vp_sx_trace") {
    if (getenv("SX_TRACE")) fprintf(stderr, "TRACE %s %llx%s\n", cstr(st, A(0).c).c_str(), (unsigned long long)A(1).c, A(1).sym() ? Z3_ast_to_string(Z, A(1).e.a) : "");
    return true;
  }
  if (name == "malloc") {
    uint64_t n = concretize(st, A(0));
    ret = mkc(64, alloc_obj(st, n, true, "heap block from " + srcloc(ii.I)));
    return true;
  }
  if (name == "calloc") {
    uint64_t a = concretize(st, A(0)), b = concretize(st, A(1));
    ret = mkc(64, alloc_obj(st, a * b, true, "heap block from " + srcloc(ii.I), false, 0));
    return true;
  }
  if (name == "realloc") {
    uint64_t p = concretize(st, A(0)), n = concretize(st, A(1));
    if (!p) { ret = mkc(64, alloc_obj(st, n, true, "heap block from " + srcloc(ii.I))); return true; }
    Obj *o = findobj(st, p);
    ++n_memchecks;
    if (!o || o->base != p || !o->heap || o->freed) memerr(st, "realloc of an invalid pointer", *st.model);
    uint64_t os = o->size;
    uint64_t q = alloc_obj(st, n, true, "heap block from " + srcloc(ii.I));
    if (!q) { ret = mkc(64, 0); return true; }
    do_memcpy(st, mkc(64, q), mkc(64, p), os < n ? os : n, false);
    findobj(st, p)->freed = true;
    ret = mkc(64, q);
    return true;
  }
  if (name == "free") {
    do_free(st, concretize(st, A(0)));
    return true;
  }
  if (name == "memcpy" || name == "memmove" || name == "mempcpy") {
    uint64_t n = concretize(st, A(2));
    do_memcpy(st, A(0), A(1), n, name == "memmove");
    ret = name == "mempcpy" ? vbin(ADD, A(0), A(2)) : A(0);
    return true;
  }
  if (name == "memset") {
    uint64_t n = concretize(st, A(2));
    do_memset(st, A(0), vtrunc(A(1), 8), n);
    ret = A(0);
    return true;
  }
  if (name == "abort" || name == "__assert_fail" || name == "exit") {
    report(st, "abort", name, *st.model);
    throw KillPath();
  }
  if (name == "__errno_location") {
    static uint64_t key = 0x10;
    Obj *o = findobj(st, 0x500000000000ULL);
    if (!o) {
      Obj n;
      n.base = 0x500000000000ULL;
      n.size = 4;
      n.name = "errno";
      n.b = std::make_shared<Bytes>();
      n.b->c.assign(4, 0);
      st.mem[n.base] = n;
    }
    (void)key;
    ret = mkc(64, 0x500000000000ULL);
    return true;
  }
  if (name == "snprintf" || name == "sprintf") {
    bool sn = name == "snprintf";
    uint64_t size = sn ? concretize(st, A(1)) : ~0ULL;
    uint64_t dst = concretize(st, A(0));
    string fmt = cstr(st, concretize(st, A(sn ? 2 : 1)));
    vector<Val> out;
    do_format(st, f, ii, fmt, sn ? 3 : 2, out);
    if (size) {
      uint64_t k = 0;
      for (; k < out.size() && k + 1 < size; ++k) do_store(st, mkc(64, dst + k), out[k]);
      do_store(st, mkc(64, dst + k), mkc(8, 0));
    }
    ret = mkc(32, out.size());
    return true;
  }
  return false;
}

static bool intrinsic(State &st, Frame &f, InstInfo &ii, const IntrinsicInst *in, Val &ret) {
  auto A = [&](unsigned i) { return op(f, ii, i); };
  unsigned w = ii.w;
  if (isa<DbgInfoIntrinsic>(in)) return true;
  switch (in->getIntrinsicID()) {
  case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare:
  case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl:
  case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: case Intrinsic::sideeffect:
  case Intrinsic::donothing:
    return true;
  case Intrinsic::stacksave: ret = mkc(64, 0); return true;
  case Intrinsic::stackrestore: return true;
  case Intrinsic::memcpy: case Intrinsic::memcpy_inline:
    do_memcpy(st, A(0), A(1), concretize(st, A(2)), false);
    return true;
  case Intrinsic::memmove: do_memcpy(st, A(0), A(1), concretize(st, A(2)), true); return true;
  case Intrinsic::memset: case Intrinsic::memset_inline: do_memset(st, A(0), A(1), concretize(st, A(2))); return true;
  case Intrinsic::expect: ret = A(0); return true;
  case Intrinsic::umin: ret = pick(st, vicmp(CmpInst::ICMP_ULT, A(0), A(1)), A(0), A(1)); return true;
  case Intrinsic::umax: ret = pick(st, vicmp(CmpInst::ICMP_UGT, A(0), A(1)), A(0), A(1)); return true;
  case Intrinsic::smin: ret = pick(st, vicmp(CmpInst::ICMP_SLT, A(0), A(1)), A(0), A(1)); return true;
  case Intrinsic::smax: ret = pick(st, vicmp(CmpInst::ICMP_SGT, A(0), A(1)), A(0), A(1)); return true;
  case Intrinsic::abs: ret = vite(vicmp(CmpInst::ICMP_SLT, A(0), mkc(w, 0)), vbin(SUB, mkc(w, 0), A(0)), A(0)); return true;
  case Intrinsic::usub_sat: ret = vite(vicmp(CmpInst::ICMP_ULT, A(0), A(1)), mkc(w, 0), vbin(SUB, A(0), A(1))); return true;
  case Intrinsic::uadd_sat: { Val s = vbin(ADD, A(0), A(1)); ret = vite(vicmp(CmpInst::ICMP_ULT, s, A(0)), mkc(w, ~0ULL), s); return true; }
  case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
    bool add = in->getIntrinsicID() == Intrinsic::sadd_sat;
    Val x = vsext(A(0), w + 1), y = vsext(A(1), w + 1), r = vbin(add ? ADD : SUB, x, y);
    Val lo = mkc(w, 1ULL << (w - 1)), hi = mkc(w, (w == 64 ? ~0ULL : (1ULL << w) - 1) >> 1);
    Val n = vbin(add ? ADD : SUB, A(0), A(1));
    Val neg = vicmp(CmpInst::ICMP_SLT, A(0), mkc(w, 0));
    Val ov = vicmp(CmpInst::ICMP_NE, r, vsext(n, w + 1));
    ret = vite(ov, vite(neg, lo, hi), n);
    return true;
  }
  case Intrinsic::fshl: case Intrinsic::fshr: {
    if (A(2).sym()) fatal("symbolic funnel shift");
    unsigned s = A(2).c % w;
    bool l = in->getIntrinsicID() == Intrinsic::fshl;
    if (!s) { ret = l ? A(0) : A(1); return true; }
    unsigned ls = l ? s : w - s;
    ret = vbin(OR, vbin(SHL, A(0), mkc(w, ls)), vbin(LSHR, A(1), mkc(w, w - ls)));
    return true;
  }
  case Intrinsic::bswap: {
    Val a = A(0);
    Val r = mkc(w, 0);
    for (unsigned i = 0; i < w / 8; ++i)
      r = vbin(OR, r, vbin(SHL, vbin(AND, vbin(LSHR, a, mkc(w, 8 * i)), mkc(w, 0xff)), mkc(w, w - 8 - 8 * i)));
    ret = r;
    return true;
  }
  case Intrinsic::ctpop: {
    Val a = A(0), r = mkc(w, 0);
    for (unsigned i = 0; i < w; ++i) r = vbin(ADD, r, vbin(AND, vbin(LSHR, a, mkc(w, i)), mkc(w, 1)));
    ret = r;
    return true;
  }
  case Intrinsic::ctlz: {
    Val a = A(0), r = mkc(w, w);
    for (unsigned i = 0; i < w; ++i)
      r = vite(vicmp(CmpInst::ICMP_NE, vbin(AND, a, mkc(w, 1ULL << i)), mkc(w, 0)), mkc(w, w - 1 - i), r);
    ret = r;
    return true;
  }
  case Intrinsic::cttz: {
    Val a = A(0), r = mkc(w, w);
    for (int i = w - 1; i >= 0; --i)
      r = vite(vicmp(CmpInst::ICMP_NE, vbin(AND, a, mkc(w, 1ULL << i)), mkc(w, 0)), mkc(w, i), r);
    ret = r;
    return true;
  }
  case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow:
  case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
    Val a = A(0), b = A(1);
    unsigned n = a.w, W = 2 * n;
    auto id = in->getIntrinsicID();
    bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
    Op o = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? ADD
         : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? SUB : MUL;
    Val r = vbin(o, a, b);
    Val x = sg ? vsext(a, W) : vzext(a, W), y = sg ? vsext(b, W) : vzext(b, W);
    Val big = vbin(o, x, y), rx = sg ? vsext(r, W) : vzext(r, W);
    Val ov = vicmp(CmpInst::ICMP_NE, big, rx);
    ret.agg = std::make_shared<vector<Val>>(vector<Val>{r, ov});
    return true;
  }
  case Intrinsic::vastart: {
    // System V x86-64 va_list with the register area used up: every argument
    // (integers and pointers only) is taken from the overflow area
    uint64_t ap = concretize(st, A(0)), area = alloc_obj(st, f.va.size() * 8 + 8, false, "variable arguments", true);
    f.allocas.push_back(area);
    do_store(st, mkc(64, ap), mkc(32, 48));
    do_store(st, mkc(64, ap + 4), mkc(32, 176));
    do_store(st, mkc(64, ap + 8), mkc(64, area));
    do_store(st, mkc(64, ap + 16), mkc(64, 0));
    for (size_t k = 0; k < f.va.size(); ++k) {
      Val x = f.va[k];
      do_store(st, mkc(64, area + 8 * k), x.w < 64 ? vzext(x, 64) : x);
    }
    return true;
  }
  case Intrinsic::vaend: return true;
  case Intrinsic::objectsize: ret = mkc(w, A(1).c ? 0 : ~0ULL); return true;
  case Intrinsic::is_constant: ret = mkc(1, 0); return true;
  case Intrinsic::ubsantrap: case Intrinsic::trap: case Intrinsic::debugtrap:
    report(st, "ubsan", "undefined behaviour check (array index out of bounds)", *st.model);
    throw KillPath();
  default:
    fatal("intrinsic " + in->getCalledFunction()->getName().str());
  }
}

static void ret_from(State &st, const Val &rv, bool has) {
  Frame &f = st.stack.back();
  for (uint64_t a : f.allocas) {
    auto it = st.mem.find(a);
    if (it != st.mem.end()) it->second.freed = true;
  }
  // dropping dead stack objects keeps the map small; late accesses then show
  // up as accesses to no object
  for (uint64_t a : f.allocas) st.mem.erase(a);
  st.stack.pop_back();
  if (st.stack.empty()) return;
  Frame &c = st.stack.back();
  InstInfo &ii = c.f->blocks[c.blk].insts[c.ip];
  if (ii.dst >= 0) {
    if (!has) fatal("void return into value");
    c.regs[ii.dst] = rv;
  }
  if (auto *inv = dyn_cast<InvokeInst>(ii.I)) { jump(st, c, inv->getNormalDest()); return; }
  ++c.ip;
}

static void call(State &st, Frame &f, InstInfo &ii, Function *F, unsigned nargs) {
  if (st.stack.size() > 200) {
    report(st, "recursion", "unbounded recursion", *st.model);
    throw KillPath();
  }
  FuncInfo *fi = getfi(F);
  if (!fi->entered) {
    fi->entered = true;
    string file;
    if (auto *sp = F->getSubprogram()) file = sp->getFilename().str();
    funcs_run.insert(file + ":" + F->getName().str());
    // functions the compiler inlined into this one
    for (auto &B : *F)
      for (auto &I : B)
        for (const DILocation *l = I.getDebugLoc().get(); l; l = l->getInlinedAt())
          if (auto *sp = l->getScope()->getSubprogram())
            funcs_run.insert(sp->getFilename().str() + ":" + sp->getName().str());
  }
  Frame nf;
  nf.f = fi;
  nf.regs.resize(fi->nslots);
  unsigned i = 0;
  for (auto &a : F->args()) {
    (void)a;
    if (i < nargs) nf.regs[i] = op(f, ii, i);
    ++i;
  }
  if (F->isVarArg())
    for (; i < nargs; ++i) nf.va.push_back(op(f, ii, i));
  // byval not used on x86-64 for our signatures
  st.stack.push_back(std::move(nf));
}

static void step(State &st) {
  Frame &f = st.stack.back();
  InstInfo &ii = f.f->blocks[f.blk].insts[f.ip];
  Instruction *I = ii.I;
  auto A = [&](unsigned i) { return op(f, ii, i); };
  auto set = [&](Val v) {
    f.regs[ii.dst] = std::move(v);
    ++f.ip;
  };
  switch (I->getOpcode()) {
  case Instruction::Add: set(vbin(ADD, A(0), A(1))); break;
  case Instruction::Sub: set(vbin(SUB, A(0), A(1))); break;
  case Instruction::Mul: set(vbin(MUL, A(0), A(1))); break;
  case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
    Val d = A(1);
    if (fork_cond(st, vicmp(CmpInst::ICMP_EQ, d, mkc(d.w, 0)))) {
      report(st, "div", "division by zero", *st.model);
      throw KillPath();
    }
    Op o = I->getOpcode() == Instruction::UDiv ? UDIV : I->getOpcode() == Instruction::SDiv ? SDIV : I->getOpcode() == Instruction::URem ? UREM : SREM;
    set(vbin(o, A(0), d));
    break;
  }
  case Instruction::And: set(vbin(AND, A(0), A(1))); break;
  case Instruction::Or: set(vbin(OR, A(0), A(1))); break;
  case Instruction::Xor: set(vbin(XOR, A(0), A(1))); break;
  case Instruction::Shl: set(vbin(SHL, A(0), A(1))); break;
  case Instruction::LShr: set(vbin(LSHR, A(0), A(1))); break;
  case Instruction::AShr: set(vbin(ASHR, A(0), A(1))); break;
  case Instruction::ICmp: set(vicmp(cast<ICmpInst>(I)->getPredicate(), A(0), A(1))); break;
  case Instruction::ZExt: set(vzext(A(0), ii.w)); break;
  case Instruction::SExt: set(vsext(A(0), ii.w)); break;
  case Instruction::Trunc: set(vtrunc(A(0), ii.w)); break;
  case Instruction::PtrToInt: case Instruction::IntToPtr: {
    Val v = A(0);
    set(v.w < ii.w ? vzext(v, ii.w) : vtrunc(v, ii.w));
    break;
  }
  case Instruction::BitCast: case Instruction::Freeze: set(A(0)); break;
  case Instruction::Select: {
    Val c = A(0), a = A(1), b = A(2);
    if (a.agg || b.agg) { set(fork_cond(st, c) ? a : b); break; }
    if (c.sym() && a.w >= 32) {
      // a count clamped to the only value it can have becomes a constant
      set(pick(st, c, a, b));
      break;
    }
    set(vite(c, a, b));
    break;
  }
  case Instruction::GetElementPtr: {
    auto *g = cast<GetElementPtrInst>(I);
    Val p = A(0);
    unsigned k = 1;
    uint64_t coff = 0;
    for (gep_type_iterator gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi, ++k) {
      Val ix = A(k);
      if (StructType *sty = gi.getStructTypeOrNull()) {
        coff += DL->getStructLayout(sty)->getElementOffset(ix.c);
      } else {
        uint64_t es = DL->getTypeAllocSize(gi.getIndexedType());
        Val x = vsext(ix, 64);
        if (!x.sym()) coff += es * x.c;
        else p = vbin(ADD, p, vbin(MUL, x, mkc(64, es)));
      }
    }
    set(vbin(ADD, p, mkc(64, coff)));
    break;
  }
  case Instruction::Alloca: {
    auto *al = cast<AllocaInst>(I);
    uint64_t n = concretize(st, A(0));
    uint64_t sz = DL->getTypeAllocSize(al->getAllocatedType()) * n;
    uint64_t a = alloc_obj(st, sz, false, "local " + (al->hasName() ? al->getName().str() : string("object")) + " in " + f.f->F->getName().str(), true);
    if (!a) memerr(st, "huge local array", *st.model);
    f.allocas.push_back(a);
    set(mkc(64, a));
    break;
  }
  case Instruction::Load: {
    Type *t = I->getType();
    unsigned w = ii.w;
    if (!w) {
      if (auto *sty = dyn_cast<StructType>(t)) {
        Val p = A(0), r;
        r.agg = std::make_shared<vector<Val>>();
        const StructLayout *sl = DL->getStructLayout(sty);
        for (unsigned i = 0; i < sty->getNumElements(); ++i)
          r.agg->push_back(do_load(st, vbin(ADD, p, mkc(64, sl->getElementOffset(i))), tywidth(sty->getElementType(i))));
        set(r);
        break;
      }
      fatal("load type in " + srcloc(I));
    }
    set(do_load(st, A(0), w));
    break;
  }
  case Instruction::Store: {
    Val v = A(0);
    if (v.agg) {
      auto *sty = dyn_cast<StructType>(I->getOperand(0)->getType());
      if (!sty) fatal("store aggregate");
      const StructLayout *sl = DL->getStructLayout(sty);
      for (unsigned i = 0; i < v.agg->size(); ++i) do_store(st, vbin(ADD, A(1), mkc(64, sl->getElementOffset(i))), (*v.agg)[i]);
      ++f.ip;
      break;
    }
    if (!v.w) fatal("store type in " + srcloc(I));
    do_store(st, A(1), v);
    ++f.ip;
    break;
  }
  case Instruction::ExtractValue: {
    auto *ev = cast<ExtractValueInst>(I);
    Val v = A(0);
    for (unsigned ix : ev->indices()) { Val t = (*v.agg)[ix]; v = t; }
    set(v);
    break;
  }
  case Instruction::InsertValue: {
    auto *iv = cast<InsertValueInst>(I);
    Val v = A(0);
    if (iv->getNumIndices() != 1) fatal("nested insertvalue");
    Val r;
    r.agg = std::make_shared<vector<Val>>(*v.agg);
    (*r.agg)[iv->getIndices()[0]] = A(1);
    set(r);
    break;
  }
  case Instruction::Br: {
    auto *br = cast<BranchInst>(I);
    if (br->isUnconditional()) { jump(st, f, br->getSuccessor(0)); break; }
    Val c = A(0);
    bool t = fork_cond(st, c);
    jump(st, f, br->getSuccessor(t ? 0 : 1));
    break;
  }
  case Instruction::Switch: {
    auto *sw = cast<SwitchInst>(I);
    Val v = A(0);
    if (!v.sym()) {
      auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), v.c);
      jump(st, f, sw->findCaseValue(ci)->getCaseSuccessor());
      break;
    }
    // group the cases by successor; decide the group the model takes and fork
    // off the complement
    uint64_t x = mevalu(*st.model, v);
    auto *ci = ConstantInt::get(cast<IntegerType>(sw->getCondition()->getType()), x);
    BasicBlock *to = sw->findCaseValue(ci)->getCaseSuccessor();
    vector<Ast> eqs;
    bool isdef = to == sw->getDefaultDest();
    Val cond = mkc(1, 0);
    if (!isdef) {
      for (auto &c : sw->cases())
        if (c.getCaseSuccessor() == to)
          cond = vbin(OR, cond, vicmp(CmpInst::ICMP_EQ, v, mkc(v.w, c.getCaseValue()->getZExtValue())));
    } else {
      for (auto &c : sw->cases())
        if (c.getCaseSuccessor() != to)
          cond = vbin(OR, cond, vicmp(CmpInst::ICMP_EQ, v, mkc(v.w, c.getCaseValue()->getZExtValue())));
      cond = vnot1(cond);
    }
    if (cond.sym()) {
      Val other = vnot1(cond);
      std::shared_ptr<Model> m2;
      int r = query(st, other.e, &m2);
      if (r < 0) { inconclusive = true; notes.insert("solver unknown"); }
      if (r == 1) {
        SP o = clone(st);
        add_pc(*o, other.e);
        o->model = m2;
        worklist.push_back(std::move(o));
        add_pc(st, cond.e);
      }
    }
    jump(st, f, to);
    break;
  }
  case Instruction::Ret: {
    Val v;
    bool has = I->getNumOperands() > 0;
    if (has) v = A(0);
    ret_from(st, v, has);
    break;
  }
  case Instruction::Unreachable:
    report(st, "unreachable", "reached unreachable code (undefined behaviour)", *st.model);
    throw KillPath();
  case Instruction::Call: case Instruction::Invoke: {
    auto *cb = cast<CallBase>(I);
    if (auto *in = dyn_cast<IntrinsicInst>(I)) {
      Val r;
      intrinsic(st, f, ii, in, r);
      if (ii.dst >= 0) f.regs[ii.dst] = r;
      ++f.ip;
      break;
    }
    Function *F = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts());
    if (auto *ga = dyn_cast<GlobalAlias>(cb->getCalledOperand()->stripPointerCasts())) F = dyn_cast<Function>(ga->getAliasee());
    if (!F) {
      if (isa<InlineAsm>(cb->getCalledOperand())) { if (ii.dst >= 0) fatal("inline asm with result"); ++f.ip; break; }
      uint64_t a = concretize(st, A(cb->arg_size()));
      auto it = faddr.find(a);
      if (it == faddr.end()) memerr(st, "call through an invalid function pointer", *st.model);
      F = it->second;
    }
    if (!F->isDeclaration()) {
      call(st, f, ii, F, cb->arg_size());
      break;
    }
    Val r;
    if (!builtin(st, f, ii, cb, F->getName().str(), r)) fatal("no model for external function " + F->getName().str());
    if (ii.dst >= 0) {
      if (r.w && ii.w && r.w != ii.w) r = r.w < ii.w ? vzext(r, ii.w) : vtrunc(r, ii.w);
      f.regs[ii.dst] = r;
    }
    ++f.ip;
    break;
  }
  default:
    fatal(string("instruction ") + I->getOpcodeName() + " at " + srcloc(I));
  }
}

int main(int argc, char **argv) {
  const char *file = nullptr;
  unsigned smt_timeout = 60000;
  for (int i = 1; i < argc; ++i) {
    string a = argv[i];
    if (a == "--max-steps") opt_maxsteps = strtoull(argv[++i], 0, 0);
    else if (a == "--max-paths") opt_maxpaths = strtoull(argv[++i], 0, 0);
    else if (a == "--timeout") opt_timeout = atof(argv[++i]);
    else if (a == "--smt-timeout") smt_timeout = atoi(argv[++i]);
    else if (a == "--max-viol") opt_maxviol = atoi(argv[++i]);
    else file = argv[i];
  }
  if (!file) { fprintf(stderr, "usage: sx [options] module.bc\n"); return 2; }
  LLVMContext ctx;
  SMDiagnostic err;
  std::unique_ptr<Module> M = parseIRFile(file, err, ctx);
  if (!M) { err.print("sx", errs()); return 3; }
  DL = &M->getDataLayout();

  Z3_config cfg = Z3_mk_config();
  Z = Z3_mk_context_rc(cfg);
  Z3_set_error_handler(Z, [](Z3_context c, Z3_error_code e) { fatal(string("z3: ") + Z3_get_error_msg(c, e)); });
  S = Z3_mk_simple_solver(Z);
  Z3_solver_inc_ref(Z, S);
  Z3_params P = Z3_mk_params(Z);
  Z3_params_inc_ref(Z, P);
  Z3_params_set_uint(Z, P, Z3_mk_string_symbol(Z, "timeout"), smt_timeout);
  Z3_solver_set_params(Z, S, P);
  t_start = now();

  SP st(new State());
  // globals
  uint64_t ga = 0x400000000000ULL, fa = 0x300000000000ULL;
  for (auto &F : M->functions()) {
    gaddr[&F] = fa;
    faddr[fa] = &F;
    fa += 16;
  }
  for (auto &G : M->globals()) {
    uint64_t n = DL->getTypeAllocSize(G.getValueType());
    gaddr[&G] = ga;
    ga += ((n + 15) & ~15ULL) + 64;
  }
  for (auto &G : M->globals()) {
    Obj o;
    o.base = gaddr[&G];
    o.size = DL->getTypeAllocSize(G.getValueType());
    o.name = "global " + G.getName().str();
    o.b = std::make_shared<Bytes>();
    o.b->c.assign(o.size, 0);
    if (G.hasInitializer()) initbytes(o, 0, G.getInitializer());
    o.ro = G.isConstant();
    st->mem[o.base] = o;
  }
  // witness points that must be reached: string arguments of vp_sx_reach
  for (auto &F : M->functions())
    for (auto &B : F)
      for (auto &I : B)
        if (auto *cb = dyn_cast<CallBase>(&I))
          if (auto *cf = cb->getCalledFunction())
            if (cf->getName() == "vp_sx_reach")
              if (auto *c = dyn_cast<Constant>(cb->getArgOperand(0))) declared_reach.insert(cstr(*st, constval(c).c));

  Function *mainF = M->getFunction("main");
  if (!mainF || mainF->isDeclaration()) fatal("no main");
  FuncInfo *mfi = getfi(mainF);
  Frame f0;
  f0.f = mfi;
  f0.regs.resize(mfi->nslots);
  for (unsigned i = 0; i < mainF->arg_size(); ++i) f0.regs[i] = mkc(tywidth(mainF->getArg(i)->getType()), 0);
  st->stack.push_back(std::move(f0));
  // initial model
  {
    std::shared_ptr<Model> m;
    query(*st, Ast(Z3_mk_true(Z)), &m);
    st->model = m;
  }
  worklist.push_back(std::move(st));

  bool timedout = false;
  while (!worklist.empty()) {
    SP s = std::move(worklist.back());
    worklist.pop_back();
    try {
      while (!s->stack.empty()) {
        step(*s);
        ++n_steps;
        if (++s->steps > opt_maxsteps) {
          ++n_limit;
          report(*s, "steps", "no termination within the step limit", *s->model);
          throw KillPath();
        }
        if ((n_steps & 0xfff) == 0 && now() - t_start > opt_timeout) { timedout = true; break; }
      }
      if (s->stack.empty()) ++n_pruned;
    } catch (KillPath &) {
    }
    ++n_paths;
    if (timedout || now() - t_start > opt_timeout) { timedout = true; break; }
    if (n_paths >= opt_maxpaths) { timedout = true; break; }
    if (viols.size() >= opt_maxviol) break;
  }
  double wall = now() - t_start;

  string o = "{";
  o += "\"complete\": " + string(worklist.empty() && !timedout ? "true" : "false");
  o += ", \"inconclusive\": " + string(inconclusive ? "true" : "false");
  o += ", \"paths\": " + std::to_string(n_paths) + ", \"witnesses\": " + std::to_string(n_witness);
  o += ", \"returned\": " + std::to_string(n_pruned);
  o += ", \"pending\": " + std::to_string(worklist.size());
  o += ", \"steps\": " + std::to_string(n_steps) + ", \"forks\": " + std::to_string(n_forks);
  o += ", \"queries\": " + std::to_string(n_queries) + ", \"sat\": " + std::to_string(n_sat) +
       ", \"unsat\": " + std::to_string(n_unsat) + ", \"unknown\": " + std::to_string(n_unknown) + ", \"cached\": " + std::to_string(n_cached);
  char b[96];
  snprintf(b, sizeof b, ", \"solver_s\": %.3f, \"wall_s\": %.3f", t_solver, wall);
  o += b;
  o += ", \"memchecks\": " + std::to_string(n_memchecks) + ", \"simplify\": " + std::to_string(n_simplify);
  uint64_t na = 0;
  o += ", \"asserts\": {";
  bool first = true;
  for (auto &k : asserts) {
    o += string(first ? "" : ", ") + "\"" + esc(k.first) + "\": " + std::to_string(k.second);
    na += k.second;
    first = false;
  }
  o += "}, \"assert_instances\": " + std::to_string(na);
  o += ", \"unreached\": [";
  first = true;
  for (auto &k : declared_reach)
    if (!reached.count(k)) { o += string(first ? "" : ", ") + "\"" + esc(k) + "\""; first = false; }
  o += "], \"functions\": [";
  first = true;
  for (auto &k : funcs_run) { o += string(first ? "" : ", ") + "\"" + esc(k) + "\""; first = false; }
  o += "], \"notes\": [";
  first = true;
  for (auto &k : notes) { o += string(first ? "" : ", ") + "\"" + esc(k) + "\""; first = false; }
  o += "], \"witness_inputs\": ";
  if (have_witness) {
    o += "[";
    for (size_t i = 0; i < witness_inputs.size(); ++i) o += (i ? ", " : "") + std::to_string(witness_inputs[i]);
    o += "]";
  } else
    o += "null";
  o += ", \"violations\": [";
  first = true;
  for (auto &v : viols) {
    o += string(first ? "" : ", ") + "{\"kind\": \"" + v.kind + "\", \"msg\": \"" + esc(v.msg) + "\", \"where\": \"" + esc(v.where) + "\", \"inputs\": [";
    for (size_t i = 0; i < v.inputs.size(); ++i) o += (i ? ", " : "") + std::to_string(v.inputs[i]);
    o += "]}";
    first = false;
  }
  o += "]}\n";
  fputs(o.c_str(), stdout);
  fflush(stdout);
  _exit(0);
}
