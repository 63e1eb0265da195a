// symx: a KLEE-style symbolic executor for the LLVM IR rustc produces, deciding with Z3.
//
//   symx FILE.ll HARNESS OUT.json [--jobs N] [--time S] [--max-instr N] [--seed N] [--max-viol N]
//
// Inputs obtained through sym_u8/.../sym_choose are Z3 variables.  Every path of the harness that is
// feasible for some input is executed; at each sym_assert (and each panic, abort, allocation failure,
// out-of-bounds access, dead-lock or non-termination reached) the solver decides whether any input
// on that path violates it.
#include "ir.h"
#include <atomic>
#include <csignal>
#include <set>
#include <sys/wait.h>

static Exprs X;
static Module M(X);
static Solver S;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static double T0, TIME_LIMIT = 600;
static u64 MAX_INSTR = 3000000, MAX_CONC = 300, MAX_VIOL = 12, SEED = 1, DEEP = 0;
static const u64 ALLOC_CAP = (u64)1 << 25;  // 32 MiB: larger requests fail (the replay limits memory likewise)
static const u64 ALLOC_FAIL_AT = (u64)1 << 31;

// ---------- memory ----------
struct Obj {
  uint32_t rc; u64 size; uint8_t *d; Expr **s; bool ro, dead; uint8_t kind;  // kind 0 heap, 1 stack, 2 global
};
static Obj *newObj(u64 size, uint8_t kind) {
  Obj *o = new Obj{1, size, (uint8_t *)calloc(size ? size : 1, 1), nullptr, false, false, kind};
  return o;
}
static void dropObj(Obj *o) { if (o && --o->rc == 0) { free(o->d); free(o->s); delete o; } }
static Obj *cloneObj(Obj *o) {
  Obj *n = new Obj(*o);
  n->rc = 1;
  n->d = (uint8_t *)malloc(o->size ? o->size : 1);
  memcpy(n->d, o->d, o->size);
  if (o->s) { n->s = (Expr **)malloc(sizeof(Expr *) * (o->size ? o->size : 1)); memcpy(n->s, o->s, sizeof(Expr *) * o->size); }
  return n;
}
struct Chunk { uint32_t rc; Obj *o[64]; };
struct Mem {
  std::vector<Chunk *> ch;
  Mem() {}
  Mem(const Mem &m) : ch(m.ch) { for (auto *c : ch) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  ~Mem() { for (auto *c : ch) drop(c); }
  static void drop(Chunk *c) { if (c && --c->rc == 0) { for (auto *o : c->o) dropObj(o); delete c; } }
  Obj *get(u64 id) const { u64 i = id >> 6; if (i >= ch.size() || !ch[i]) return nullptr; return ch[i]->o[id & 63]; }
  Chunk *uniq(u64 id) {
    u64 i = id >> 6;
    if (i >= ch.size()) ch.resize(i + 1, nullptr);
    Chunk *c = ch[i];
    if (!c) { c = new Chunk; c->rc = 1; memset(c->o, 0, sizeof c->o); ch[i] = c; }
    else if (c->rc > 1) { Chunk *n = new Chunk(*c); n->rc = 1; for (auto *o : n->o) if (o) o->rc++; c->rc--; ch[i] = c = n; }
    return c;
  }
  void set(u64 id, Obj *o) { Chunk *c = uniq(id); dropObj(c->o[id & 63]); c->o[id & 63] = o; }
  Obj *wr(u64 id) {
    Chunk *c = uniq(id);
    Obj *&o = c->o[id & 63];
    if (o->rc > 1) { Obj *n = cloneObj(o); o->rc--; o = n; }
    return o;
  }
};

// ---------- state ----------
struct Frame {
  uint32_t rc = 1; Function *f; int blk = 0, ip = 0; std::vector<Val> regs;
  u64 obj = 0; int dst = -1; int normal = -1;
  std::vector<u64> dyn;
};
struct State {
  std::vector<Frame *> fr;
  Mem mem;
  std::vector<Expr *> pc;
  std::unordered_map<Expr *, u64> known;
  std::vector<u64> model;
  std::vector<uint8_t> vw;  // widths of the inputs, in order
  std::vector<std::pair<Expr *, u64>> obs;
  std::vector<int> covers;
  std::vector<u64> freeStack;
  std::map<u64, Val> specific;  // thread-specific values
  u64 nextHeap = 0, icount = 0, keys = 0, errnoObj = 0, conc = 0, heapLive = 0;
  State() {}
  State(const State &o) : fr(o.fr), mem(o.mem), pc(o.pc), known(o.known), model(o.model), vw(o.vw), obs(o.obs), covers(o.covers), freeStack(o.freeStack), specific(o.specific), nextHeap(o.nextHeap), icount(o.icount), keys(o.keys), errnoObj(o.errnoObj), conc(o.conc), heapLive(o.heapLive) { for (auto *f : fr) f->rc++; }
  ~State() { for (auto *f : fr) if (--f->rc == 0) delete f; }
  Frame *top() {
    Frame *&f = fr.back();
    if (f->rc > 1) { Frame *n = new Frame(*f); n->rc = 1; f->rc--; f = n; }
    return f;
  }
};

// ---------- results ----------
struct Viol { std::string kind, msg, loc, stack; int code; std::vector<u64> in; std::vector<uint8_t> w; };
static std::vector<Viol> viols;
static std::set<std::string> violKeys;
static std::map<std::string, u64> incomplete;
static std::map<int, u64> coverCount;
struct Sample { std::vector<u64> in; std::vector<uint8_t> w; std::vector<u64> obs; };
static std::vector<Sample> samples;
static u64 nPaths = 0, nAssumed = 0, nForks = 0, nAsserts = 0, nInstr = 0, sampleSeen = 0, maxPathInstr = 0, nViolPaths = 0, nSymPaths = 0;
static u64 rng = 88172645463325252ull;
static u64 rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }

struct PathEnd { int why; };           // 0 done, 1 assumption false, 2 violation, 3 engine limit
static std::vector<State *> work;

static std::string jstr(const std::string &s) {
  std::string r = "\"";
  for (char ch : s) { if (ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if ((unsigned char)ch < 32) { char b[8]; snprintf(b, 8, "\\u%04x", ch); r += b; } else r += ch; }
  return r + "\"";
}

static std::string stackOf(State &st) {
  std::string r;
  int k = 0;
  for (size_t i = st.fr.size(); i-- > 0 && k < 14; k++) { if (!r.empty()) r += " < "; r += st.fr[i]->f->pretty; }
  return r;
}

static volatile int showState = 0;   // SIGUSR1: print where the execution is

static void limitHit(const std::string &why) { incomplete[why]++; throw PathEnd{3}; }

static void report(State &st, const std::vector<u64> &model, const std::string &kind, const std::string &msg, const std::string &loc, int code) {
  std::string key = kind + "|" + msg + "|" + loc + "|" + std::to_string(code);
  std::string top;
  for (size_t i = st.fr.size(); i-- > 0;) if (st.fr[i]->f->pretty.find("steit") != std::string::npos) { top = st.fr[i]->f->pretty; break; }
  key += "|" + top;
  nViolPaths++;
  if (viols.size() >= MAX_VIOL || !violKeys.insert(key).second) return;
  Viol v{kind, msg, loc, stackOf(st), code, model, st.vw};
  v.in.resize(st.vw.size(), 0);
  viols.push_back(v);
}

static void violate(State &st, const std::string &kind, const std::string &msg, const std::string &loc = "", int code = 0) {
  report(st, st.model, kind, msg, loc, code);
  throw PathEnd{2};
}

// ---------- value helpers ----------
static inline Val mk(Expr *e) { if (e->op == E_CONST && e->w <= 64) return cv((u64)e->val); return Val{e, 0}; }
static inline Expr *ex(Val v, unsigned w) { return v.e ? v.e : X.konst(w, v.c); }

static void addPC(State &st, Expr *e) {
  if (e->op == E_CONST) return;
  if (e->op == E_AND && e->w == 1) { addPC(st, e->a); addPC(st, e->b); return; }
  st.known[e] = 1;
  Expr *n;
  if (X.isNot(e, &n)) {
    st.known[n] = 0;
    if (n->op == E_OR) { addPC(st, X.not1(n->a)); addPC(st, X.not1(n->b)); return; }
  }
  if (e->op == E_EQ && Exprs::isC(e->b) && e->b->w <= 64) st.known[e->a] = (u64)e->b->val;
  st.pc.push_back(e);
}

// Decide a one-bit expression on this path: 0, 1, or 2 = both possible (then *other holds a model of
// the value the current model does not take).
static int decide(State &st, Expr *e, u64 &mine, std::vector<u64> &other) {
  if (e->op == E_CONST) { mine = (u64)e->val; return (int)mine; }
  auto k = st.known.find(e);
  if (k != st.known.end()) { mine = k->second; return (int)mine; }
  mine = (u64)X.eval(e, st.model);
  Expr *neg = mine ? X.not1(e) : e;
  other = st.model;
  int r = S.check(X, st.pc, neg, other);
  if (r < 0) limitHit("solver gave no answer within its resource limit");
  if (r == 0) { st.known[e] = mine; return (int)mine; }
  return 2;
}

// The copy takes a frame of its own, so that frame pointers held for st stay valid and private.
static State *fork(State &st) { nForks++; State *o = new State(st); o->top(); return o; }

// Branch on e: the current state continues with the returned value; if the other value is feasible, a
// copy that will re-execute the current instruction with it is queued.
static u64 branch(State &st, Expr *e) {
  u64 mine; std::vector<u64> other;
  int r = decide(st, e, mine, other);
  if (r != 2) return mine;
  State *o = fork(st);
  o->model = other;
  addPC(*o, mine ? X.not1(e) : e);
  work.push_back(o);
  addPC(st, mine ? e : X.not1(e));
  return mine;
}

// A choice between two values.  Word-sized choices and choices between constants steer sizes, offsets
// and loops, so they fork: terms stay small.  Others become an if-then-else term.
static Val choice(State &st, Val c, Val a, Val b, unsigned w) {
  if (!c.e) return c.c & 1 ? a : b;
  auto k = st.known.find(c.e);
  if (k != st.known.end()) return k->second ? a : b;
  if (w > 1 && (w >= 32 || (!a.e && !b.e))) return branch(st, c.e) & 1 ? a : b;
  return mk(X.ite(c.e, ex(a, w), ex(b, w)));
}

static u64 concretize(State &st, Val v, unsigned w) {
  if (!v.e) return v.c;
  auto k = st.known.find(v.e);
  if (k != st.known.end()) return k->second;
  u64 m = (u64)X.eval(v.e, st.model);
  if (++st.conc > MAX_CONC && getenv("SYMX_DEBUG")) fprintf(stderr, "concretize: %s\n", stackOf(st).c_str());
  if (st.conc > MAX_CONC) limitHit("too many concrete values of one expression");
  Expr *eq = X.bin(E_EQ, v.e, X.konst(w, m));
  u64 r = branch(st, eq);
  (void)r;
  st.known[v.e] = m;
  return m;
}

// ---------- memory access ----------
static std::string hex(u64 v) { char b[24]; snprintf(b, 24, "0x%llx", (unsigned long long)v); return b; }

static Obj *access(State &st, u64 addr, u64 n, bool wr, u64 &off) {
  u64 id = addr >> OBJ_SHIFT;
  Obj *o = st.mem.get(id);
  off = addr & (((u64)1 << OBJ_SHIFT) - 1);
  if (!o) { if (n == 0) return nullptr; violate(st, "memory", addr < 4096 ? "null pointer access" : "wild pointer access " + hex(addr)); }
  if (o->dead && n) violate(st, "memory", "use after free");
  if (off + n > o->size && n) violate(st, "memory", "out-of-bounds access at offset " + std::to_string(off) + "+" + std::to_string(n) + " of " + std::to_string(o->size));
  if (wr && n) { if (o->ro) violate(st, "memory", "write to constant"); o = st.mem.wr(id); }
  return o;
}

static Val readBytes(Obj *o, u64 off, unsigned n, unsigned w) {
  bool sym = false;
  if (o->s) for (unsigned i = 0; i < n; i++) if (o->s[off + i]) { sym = true; break; }
  if (!sym) {
    if (n <= 8) { u64 v = 0; memcpy(&v, o->d + off, n); if (w < 64) v &= ((u64)1 << w) - 1; return cv(v); }
    u128 v = 0; memcpy(&v, o->d + off, n);
    return Val{X.konst(w, v), 0};
  }
  Expr *e = nullptr;
  for (unsigned i = n; i-- > 0;) {
    Expr *b = o->s[off + i] ? o->s[off + i] : X.konst(8, o->d[off + i]);
    e = e ? X.concat(e, b) : b;
  }
  if (w < e->w) e = X.extract(e, 0, w);
  return mk(e);
}

static void ensureSym(Obj *o) { if (!o->s) o->s = (Expr **)calloc(o->size ? o->size : 1, sizeof(Expr *)); }

static void writeBytes(Obj *o, u64 off, unsigned n, unsigned w, Val v) {
  if (!v.e) { memcpy(o->d + off, &v.c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *)); return; }
  Expr *e = v.e;
  if (e->op == E_CONST) { u128 x = e->val; memcpy(o->d + off, &x, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *)); return; }
  ensureSym(o);
  if (e->w < n * 8) e = X.zext(e, n * 8);
  (void)w;
  for (unsigned i = 0; i < n; i++) {
    Expr *b = X.extract(e, i * 8, 8);
    if (b->op == E_CONST) { o->d[off + i] = (uint8_t)b->val; o->s[off + i] = nullptr; }
    else o->s[off + i] = b;
  }
}

static Expr *pickTree(Expr *r, std::vector<std::pair<u64, Expr *>> &runs, size_t lo, size_t hi) {
  if (hi - lo == 1) return runs[lo].second;
  size_t mid = (lo + hi) / 2;
  Expr *c = X.bin(E_ULT, r, X.konst(r->w, runs[mid].first));
  return X.ite(c, pickTree(r, runs, lo, mid), pickTree(r, runs, mid, hi));
}

static Val loadScalar(State &st, Val addr, Type *t) {
  unsigned w = t->w, n = (w + 7) / 8;
  u64 off;
  if (!addr.e) { Obj *o = access(st, addr.c, n, false, off); return readBytes(o, off, n, w); }
  auto k = st.known.find(addr.e);
  if (k != st.known.end()) { Obj *o = access(st, k->second, n, false, off); return readBytes(o, off, n, w); }
  // symbolic address: constant + bounded remainder inside one object becomes a selection over its bytes
  Expr *a = addr.e, *r = nullptr; u64 base = 0;
  if (a->op == E_ADD && Exprs::isC(a->b)) { base = (u64)a->b->val; r = a->a; }
  if (r) {
    u64 m = (u64)X.eval(a, st.model);
    Obj *o = st.mem.get(m >> OBJ_SHIFT);
    u64 hi = (u64)Exprs::umax(r), lo = (u64)Exprs::umin(r);
    if (o && !o->dead && hi - lo > 1024) {
      for (u64 b : {(u64)16, (u64)64, (u64)256, (u64)1024}) {
        u64 mine; std::vector<u64> ot;
        Expr *c = X.bin(E_ULT, r, X.konst(64, b));
        if (decide(st, c, mine, ot) == 1) { lo = 0; hi = b - 1; break; }
      }
    }
    if (o && !o->dead && hi - lo <= 1024) {
      std::vector<std::pair<u64, Expr *>> runs;
      u64 obase = (m >> OBJ_SHIFT) << OBJ_SHIFT;
      bool oob = false; u64 first = ~0ull, last = 0;
      for (u64 v = lo; v <= hi; v++) {
        if ((v & (u64)r->k0) || (~v & (u64)r->k1)) continue;
        u64 ad = base + v;
        if (ad < obase || ad - obase + n > o->size) { oob = true; continue; }
        if (first == ~0ull) first = v;
        last = v;
        Expr *e = ex(readBytes(o, ad - obase, n, w), w);
        if (runs.empty() || runs.back().second != e) runs.push_back({v, e});
      }
      if (oob && first != ~0ull) {
        Expr *in = X.bin(E_AND, X.bin(E_ULE, X.konst(64, first), r), X.bin(E_ULE, r, X.konst(64, last)));
        if (!branch(st, in)) { u64 x = concretize(st, addr, 64); Obj *oo = access(st, x, n, false, off); return readBytes(oo, off, n, w); }
      }
      if (!runs.empty()) return mk(pickTree(r, runs, 0, runs.size()));
    }
  }
  u64 x = concretize(st, addr, 64);
  Obj *o = access(st, x, n, false, off);
  return readBytes(o, off, n, w);
}

static void storeScalar(State &st, u64 addr, Type *t, Val v) {
  unsigned w = t->w, n = (w + 7) / 8;
  u64 off;
  Obj *o = access(st, addr, n, true, off);
  writeBytes(o, off, n, w, v);
}

// memset over [to, to + n) with symbolic n, and possibly to = base + symbolic offset: bytes that already
// hold the value stay, the others become "new if in range, else old".  False if that does not apply (the
// caller then splits on the values).
static bool memsetUpTo(State &st, Val to, uint8_t v, Val len) {
  Expr *r = nullptr; u64 base = to.c;
  if (to.e) {
    if (to.e->op != E_ADD || !Exprs::isC(to.e->b)) return false;
    base = (u64)to.e->b->val; r = to.e->a;
  }
  Expr *n = ex(len, 64);
  Obj *o = st.mem.get(base >> OBJ_SHIFT);
  u64 off = base & (((u64)1 << OBJ_SHIFT) - 1), bound = 0;
  if (!o || o->dead || o->ro || off >= o->size) return false;
  auto sure = [&](Expr *c) { u64 mine; std::vector<u64> ot; return decide(st, c, mine, ot) == 1 && mine; };
  for (u64 b : {(u64)64, (u64)1024, (u64)8192, o->size - off}) {
    b = std::min(b, o->size - off);
    Expr *B = X.konst(64, b);
    if (r ? sure(X.bin(E_AND, X.bin(E_ULE, r, B), X.bin(E_ULE, n, X.bin(E_SUB, B, r)))) : sure(X.bin(E_ULE, n, B))) { bound = b; break; }
  }
  if (!bound) return false;
  std::vector<u64> diff;
  for (u64 i = 0; i < bound; i++) if ((o->s && o->s[off + i]) || o->d[off + i] != v) diff.push_back(i);
  if (diff.size() > 256) return false;
  if (diff.empty()) return true;
  o = st.mem.wr(base >> OBJ_SHIFT);
  for (u64 i : diff) {
    Expr *old = ex(readBytes(o, off + i, 1, 8), 8), *k = X.konst(64, i);
    Expr *in = r ? X.bin(E_AND, X.bin(E_ULE, r, k), X.bin(E_ULT, X.bin(E_SUB, k, r), n)) : X.bin(E_ULT, k, n);
    writeBytes(o, off + i, 1, 8, mk(X.ite(in, X.konst(8, v), old)));
  }
  return true;
}

static void copyMem(State &st, u64 d, u64 s, u64 n) {
  if (!n) return;
  u64 so, dof;
  Obj *src = access(st, s, n, false, so);
  // keep the source alive across a copy-on-write of the destination
  src->rc++;
  Obj *dst;
  try { dst = access(st, d, n, true, dof); } catch (...) { dropObj(src); throw; }
  if (dst == src) {
    memmove(dst->d + dof, dst->d + so, n);
    if (dst->s) memmove(dst->s + dof, dst->s + so, n * sizeof(Expr *));
  } else {
    memmove(dst->d + dof, src->d + so, n);
    bool any = false;
    if (src->s) for (u64 i = 0; i < n; i++) if (src->s[so + i]) { any = true; break; }
    if (any) { ensureSym(dst); memmove(dst->s + dof, src->s + so, n * sizeof(Expr *)); }
    else if (dst->s) memset(dst->s + dof, 0, n * sizeof(Expr *));
  }
  dropObj(src);
}

static u64 heapAlloc(State &st, u64 size) {
  u64 id = st.nextHeap++;
  st.mem.set(id, newObj(size, 0));
  st.heapLive += size;
  return id << OBJ_SHIFT;
}

static std::string cstr(State &st, u64 addr, u64 n) {
  u64 id = addr >> OBJ_SHIFT, off = addr & (((u64)1 << OBJ_SHIFT) - 1);
  Obj *o = st.mem.get(id);
  if (!o || off + n > o->size || n > 300) return "";
  return std::string((char *)o->d + off, n);
}

static u64 rd64(State &st, u64 addr, unsigned n) {
  Obj *o = st.mem.get(addr >> OBJ_SHIFT); u64 off = addr & (((u64)1 << OBJ_SHIFT) - 1), v = 0;
  if (!o || off + n > o->size) return 0;
  memcpy(&v, o->d + off, n);
  return v;
}

static std::string location(State &st, const std::vector<Val> &args) {
  for (size_t i = args.size(); i-- > 0;) {
    if (args[i].e) continue;
    u64 a = args[i].c;
    Obj *o = st.mem.get(a >> OBJ_SHIFT);
    if (!o || o->kind != 2 || o->size != 24) continue;
    std::string f = cstr(st, rd64(st, a, 8), rd64(st, a + 8, 8));
    if (f.find(".rs") == std::string::npos) continue;
    return f + ":" + std::to_string(rd64(st, a + 16, 4)) + ":" + std::to_string(rd64(st, a + 20, 4));
  }
  return "";
}

// ---------- externs ----------
enum Ext {
  X_NONE, X_SYM8, X_SYM16, X_SYM32, X_SYM64, X_CHOOSE, X_ASSUME, X_ASSERT, X_COVER, X_OBSERVE, X_CONC, X_DEEP,
  X_MALLOC, X_CALLOC, X_REALLOC, X_FREE, X_MEMALIGN, X_BCMP, X_MEMCMP, X_STRLEN, X_SYSCALL, X_ERRNO, X_WRITE, X_WRITEV, X_GETENV,
  X_ABORT, X_ZERO, X_MEMCPY, X_MEMSET, X_TRAP, X_MINMAX, X_SAT, X_OVF, X_CLZ, X_CTZ, X_POPCNT, X_FSH, X_ABS, X_CMP3, X_BITREV, X_BSWAP,
  X_ISCONST, X_IDENT, X_FMT, X_NOALLOC, X_KEYNEW, X_KEYSET, X_KEYGET
};
static int extOf(const std::string &n) {
  static const std::map<std::string, int> m = {
      {"sym_u8", X_SYM8}, {"sym_u16", X_SYM16}, {"sym_u32", X_SYM32}, {"sym_u64", X_SYM64}, {"sym_choose", X_CHOOSE}, {"sym_assume", X_ASSUME}, {"sym_assert", X_ASSERT}, {"sym_cover", X_COVER}, {"sym_observe", X_OBSERVE}, {"sym_concretize", X_CONC}, {"sym_deep", X_DEEP},
      {"malloc", X_MALLOC}, {"calloc", X_CALLOC}, {"realloc", X_REALLOC}, {"free", X_FREE}, {"posix_memalign", X_MEMALIGN}, {"bcmp", X_BCMP}, {"memcmp", X_MEMCMP}, {"strlen", X_STRLEN}, {"syscall", X_SYSCALL}, {"__errno_location", X_ERRNO}, {"write", X_WRITE}, {"writev", X_WRITEV}, {"getenv", X_GETENV}, {"abort", X_ABORT},
      {"pthread_key_create", X_KEYNEW}, {"pthread_key_delete", X_ZERO}, {"pthread_setspecific", X_KEYSET}, {"pthread_getspecific", X_KEYGET}};
  auto it = m.find(n);
  if (it != m.end()) return it->second;
  auto pre = [&](const char *p) { return n.compare(0, strlen(p), p) == 0; };
  if (pre("llvm.memcpy") || pre("llvm.memmove")) return X_MEMCPY;
  if (pre("llvm.memset")) return X_MEMSET;
  if (pre("llvm.trap") || pre("llvm.ubsantrap")) return X_TRAP;
  if (pre("llvm.umin") || pre("llvm.umax") || pre("llvm.smin") || pre("llvm.smax")) return X_MINMAX;
  if (pre("llvm.usub.sat") || pre("llvm.uadd.sat") || pre("llvm.ssub.sat") || pre("llvm.sadd.sat")) return X_SAT;
  if (n.find(".with.overflow.") != std::string::npos) return X_OVF;
  if (pre("llvm.ctlz")) return X_CLZ;
  if (pre("llvm.cttz")) return X_CTZ;
  if (pre("llvm.ctpop")) return X_POPCNT;
  if (pre("llvm.fshl") || pre("llvm.fshr")) return X_FSH;
  if (pre("llvm.abs")) return X_ABS;
  if (pre("llvm.ucmp") || pre("llvm.scmp")) return X_CMP3;
  if (pre("llvm.bitreverse")) return X_BITREV;
  if (pre("llvm.bswap")) return X_BSWAP;
  if (pre("llvm.is.constant")) return X_ISCONST;
  if (pre("llvm.threadlocal.address") || pre("llvm.expect") || pre("llvm.launder") || pre("llvm.strip")) return X_IDENT;
  return X_NONE;
}

static bool stubFormat = true;

static void markExt(Function *f) {
  if (f->ext >= 0) return;
  f->ext = f->isDecl ? extOf(f->name) : X_NONE;
  if (f->isDecl && f->ext == X_NONE) f->ext = 1000;
  if (!f->isDecl && stubFormat && f->name.find("5alloc3fmt6format12format_inner") != std::string::npos) f->ext = X_FMT;
  // Hash tables behave the same whatever the hash function: a constant one makes key comparisons plain
  // branches on the keys themselves.
  if (((f->pretty.find("BuildHasher>::hash_one") != std::string::npos && f->pretty.find("hash::random::RandomState") != std::string::npos)
      || f->pretty.find("indexmap::map::hash_elem_using") == 0)) f->ext = X_ZERO;
  if (f->name.find("35___rust_no_alloc_shim_is_unstable_v2") != std::string::npos) f->ext = X_NOALLOC;
}

static Val newInput(State &st, unsigned w) {
  u64 i = st.vw.size();
  if (i >= 120) limitHit("more than 120 inputs on one path");
  st.vw.push_back((uint8_t)w);
  if (st.model.size() <= i) st.model.resize(i + 1, 0);
  st.model[i] &= (u64)maskw(w);
  return Val{X.var(w, i), 0};
}

// returns true when handled; res receives the flattened result
static void callExt(State &st, Function *f, Type *rty, std::vector<Val> &a, const std::vector<Type *> &aty, std::vector<Val> &res) {
  switch (f->ext) {
    case X_SYM8: res.push_back(newInput(st, 8)); return;
    case X_SYM16: res.push_back(newInput(st, 16)); return;
    case X_SYM32: res.push_back(newInput(st, 32)); return;
    case X_SYM64: res.push_back(newInput(st, 64)); return;
    case X_CHOOSE: {
      // a fresh 32-bit input below n, one path per value
      u64 n = concretize(st, a[0], 32);
      if (!n) throw PathEnd{1};
      Val v = newInput(st, 32);
      st.model[st.vw.size() - 1] = 0;
      addPC(st, X.bin(E_ULT, v.e, X.konst(32, n)));
      for (u64 k = n; k-- > 1;) {
        // the sibling resumes after the call with the result k
        State *o = fork(st);
        o->model[st.vw.size() - 1] = k;
        Expr *eq = X.bin(E_EQ, v.e, X.konst(32, k));
        addPC(*o, eq);
        Frame *fr = o->top();
        Ins &in = fr->f->blocks[fr->blk].ins[fr->ip];
        if (in.dst >= 0) fr->regs[in.dst] = cv(k);
        if (in.aux.empty()) fr->ip++;
        else limitHit("sym_choose under invoke");
        work.push_back(o);
      }
      addPC(st, X.bin(E_EQ, v.e, X.konst(32, 0)));
      res.push_back(cv(0));
      return;
    }
    case X_DEEP: res.push_back(cv(DEEP)); return;
    case X_CONC: { u64 v = concretize(st, a[0], 64); st.conc = 0; res.push_back(cv(v)); return; }
    case X_ASSUME: {
      if (!a[0].e) { if (!a[0].c) throw PathEnd{1}; return; }
      u64 mine; std::vector<u64> other;
      Expr *e = a[0].e->w == 1 ? a[0].e : X.not1(X.bin(E_EQ, a[0].e, X.konst(a[0].e->w, 0)));
      int r = decide(st, e, mine, other);
      if (r == 0) throw PathEnd{1};
      if (r == 2) { if (!mine) st.model = other; addPC(st, e); }
      return;
    }
    case X_ASSERT: {
      nAsserts++;
      int code = (int)concretize(st, a[1], 32);
      if (!a[0].e) { if (!a[0].c) violate(st, "assert", "assertion " + std::to_string(code), "", code); return; }
      u64 mine; std::vector<u64> other;
      Expr *e = a[0].e->w == 1 ? a[0].e : X.not1(X.bin(E_EQ, a[0].e, X.konst(a[0].e->w, 0)));
      int r = decide(st, e, mine, other);
      if (r == 1) return;
      if (r == 0) violate(st, "assert", "assertion " + std::to_string(code), "", code);
      report(st, mine ? other : st.model, "assert", "assertion " + std::to_string(code), "", code);
      if (!mine) st.model = other;
      addPC(st, e);
      return;
    }
    case X_COVER: st.covers.push_back((int)concretize(st, a[0], 32)); return;
    case X_OBSERVE: st.obs.push_back({a[0].e, a[0].c}); return;
    case X_MALLOC: case X_CALLOC: case X_REALLOC: case X_MEMALIGN: {
      Val sz = f->ext == X_MALLOC ? a[0] : f->ext == X_CALLOC ? a[1] : f->ext == X_REALLOC ? a[1] : a[2];
      if (sz.e) {
        // requests that must fail are one class; the others are enumerated
        Expr *big = X.bin(E_ULE, X.konst(64, ALLOC_FAIL_AT), sz.e);
        if (branch(st, big)) {
          if (f->ext == X_MEMALIGN) res.push_back(cv(12)); else res.push_back(cv(0));
          return;
        }
        // prefer the largest request the inputs allow, so that a memory violation is shown at its worst
        Expr *over = X.bin(E_ULT, X.konst(64, ALLOC_CAP), sz.e);
        if (branch(st, over)) violate(st, "alloc", "allocation request above 32 MiB chosen by the input");
      }
      u64 n = concretize(st, sz, 64);
      u64 align = f->ext == X_MEMALIGN ? concretize(st, a[1], 64) : 16;
      (void)align;
      if (f->ext == X_CALLOC) n *= concretize(st, a[0], 64);
      if (n > ALLOC_CAP && n < ALLOC_FAIL_AT) violate(st, "alloc", "allocation request of " + std::to_string(n) + " bytes");
      if (n >= ALLOC_FAIL_AT) { res.push_back(cv(f->ext == X_MEMALIGN ? 12 : 0)); return; }
      if (f->ext == X_REALLOC) {
        u64 p = concretize(st, a[0], 64);
        u64 q = heapAlloc(st, n);
        if (p) {
          Obj *o = st.mem.get(p >> OBJ_SHIFT);
          if (!o || o->kind != 0 || o->dead) violate(st, "memory", "realloc of an invalid pointer");
          copyMem(st, q, p, std::min(o->size, n));
          st.heapLive -= o->size;
          st.mem.set(p >> OBJ_SHIFT, nullptr);
        }
        res.push_back(cv(q));
        return;
      }
      u64 q = heapAlloc(st, n);
      if (f->ext == X_MEMALIGN) { u64 pp = concretize(st, a[0], 64); storeScalar(st, pp, M.T.ptr(), cv(q)); res.push_back(cv(0)); }
      else res.push_back(cv(q));
      return;
    }
    case X_FREE: {
      u64 p = concretize(st, a[0], 64);
      if (!p) return;
      Obj *o = st.mem.get(p >> OBJ_SHIFT);
      if (!o || o->kind != 0 || (p & (((u64)1 << OBJ_SHIFT) - 1))) violate(st, "memory", "free of an invalid pointer (double free?)");
      st.heapLive -= o->size;
      st.mem.set(p >> OBJ_SHIFT, nullptr);
      return;
    }
    case X_BCMP: case X_MEMCMP: {
      u64 n = concretize(st, a[2], 64), p = concretize(st, a[0], 64), q = concretize(st, a[1], 64);
      if (!n) { res.push_back(cv(0)); return; }
      u64 po, qo;
      Obj *o = access(st, p, n, false, po), *r = access(st, q, n, false, qo);
      if (!o->s && !r->s) { int c = memcmp(o->d + po, r->d + qo, n); res.push_back(cv((uint32_t)(c < 0 ? -1 : c > 0))); return; }
      Expr *out = X.konst(32, 0), *all = X.konst(1, 1);
      for (u64 i = n; i-- > 0;) {
        Expr *x = ex(readBytes(o, po + i, 1, 8), 8), *y = ex(readBytes(r, qo + i, 1, 8), 8);
        Expr *eq = X.bin(E_EQ, x, y);
        if (f->ext == X_BCMP) all = X.bin(E_AND, all, eq);
        else out = X.ite(eq, out, X.ite(X.bin(E_ULT, x, y), X.konst(32, 0xffffffff), X.konst(32, 1)));
      }
      if (f->ext == X_BCMP) out = X.zext(X.not1(all), 32);
      res.push_back(mk(out));
      return;
    }
    case X_STRLEN: {
      u64 p = concretize(st, a[0], 64), n = 0;
      for (;;) { u64 off; Obj *o = access(st, p + n, 1, false, off); Val b = readBytes(o, off, 1, 8); u64 z = b.e ? concretize(st, b, 8) : b.c; if (!z) break; n++; }
      res.push_back(cv(n));
      return;
    }
    case X_SYSCALL: {
      u64 nr = concretize(st, a[0], 64);
      if (nr == 318) {  // getrandom: zeros
        u64 p = concretize(st, a[1], 64), n = concretize(st, a[2], 64);
        for (u64 i = 0; i < n; i++) storeScalar(st, p + i, M.T.integer(8), cv(0));
        res.push_back(cv(n));
        return;
      }
      if (nr == 202) {  // futex
        u64 op = concretize(st, a[2], 64) & 127;
        if (op == 0 || op == 9) violate(st, "deadlock", "waits for a lock that is never released");
        res.push_back(cv(0));
        return;
      }
      if (nr == 186) { res.push_back(cv(1)); return; }
      limitHit("system call " + std::to_string(nr));
      return;
    }
    case X_ERRNO: {
      if (!st.errnoObj) { st.errnoObj = st.nextHeap++; Obj *o = newObj(8, 1); st.mem.set(st.errnoObj, o); }
      res.push_back(cv(st.errnoObj << OBJ_SHIFT));
      return;
    }
    case X_WRITE: res.push_back(a[2]); return;
    case X_WRITEV: { u64 v = concretize(st, a[1], 64), n = concretize(st, a[2], 32), t = 0; for (u64 i = 0; i < n; i++) t += rd64(st, v + i * 16 + 8, 8); res.push_back(cv(t)); return; }
    case X_GETENV: res.push_back(cv(0)); return;
    case X_ZERO: res.push_back(cv(0)); return;
    case X_KEYNEW: {
      u64 off, at = concretize(st, a[0], 64);
      Obj *o = access(st, at, 4, true, off);
      writeBytes(o, off, 4, 32, cv(++st.keys));
      res.push_back(cv(0));
      return;
    }
    case X_KEYSET: st.specific[concretize(st, a[0], 32)] = a[1]; res.push_back(cv(0)); return;
    case X_KEYGET: { auto it = st.specific.find(concretize(st, a[0], 32)); res.push_back(it == st.specific.end() ? cv(0) : it->second); return; }
    case X_ABORT: violate(st, "abort", "process abort"); return;
    case X_TRAP: violate(st, "trap", "trap"); return;
    case X_NOALLOC: return;
    case X_FMT: {  // String returned through the first argument: empty
      u64 p = concretize(st, a[0], 64);
      storeScalar(st, p, M.T.integer(64), cv(0));
      storeScalar(st, p + 8, M.T.integer(64), cv(1));
      storeScalar(st, p + 16, M.T.integer(64), cv(0));
      return;
    }
    case X_MEMCPY: {
      u64 n = concretize(st, a[2], 64);
      if (!n) return;
      u64 d = concretize(st, a[0], 64), s = concretize(st, a[1], 64);
      copyMem(st, d, s, n);
      return;
    }
    case X_MEMSET: {
      if ((a[2].e || a[0].e) && !a[1].e && memsetUpTo(st, a[0], (uint8_t)a[1].c, a[2])) return;
      u64 n = concretize(st, a[2], 64);
      if (!n) return;
      u64 d = concretize(st, a[0], 64), off;
      Obj *o = access(st, d, n, true, off);
      if (!a[1].e) { memset(o->d + off, (int)a[1].c, n); if (o->s) memset(o->s + off, 0, n * sizeof(Expr *)); }
      else { ensureSym(o); for (u64 i = 0; i < n; i++) o->s[off + i] = a[1].e; }
      return;
    }
    case X_IDENT: res.push_back(a[0]); return;
    case X_ISCONST: res.push_back(cv(0)); return;
    default: break;
  }
  // integer intrinsics
  if (f->ext == 1000) limitHit("unmodelled external function " + f->name);
  if (aty.empty() || aty[0]->k != T_INT) limitHit("unmodelled intrinsic " + f->name);
  unsigned w = aty[0]->w;
  Expr *x = ex(a[0], w);
  switch (f->ext) {
    case X_MINMAX: {
      Expr *y = ex(a[1], w);
      bool sg = f->name[5] == 's', mn = f->name.compare(6, 3, "min") == 0;
      Expr *lt = X.bin(sg ? E_SLT : E_ULT, x, y);
      res.push_back(choice(st, mk(lt), mn ? a[0] : a[1], mn ? a[1] : a[0], w));
      return;
    }
    case X_SAT: {
      Expr *y = ex(a[1], w);
      if (f->name[5] == 's') {
        bool add = f->name.compare(6, 3, "add") == 0;
        Expr *r = X.bin(add ? E_ADD : E_SUB, x, y);
        Expr *sxx = X.extract(x, w - 1, 1), *sy = X.extract(y, w - 1, 1), *sr = X.extract(r, w - 1, 1);
        Expr *same = X.bin(E_EQ, sxx, sy), *o = X.bin(E_AND, add ? same : X.not1(same), X.not1(X.bin(E_EQ, sxx, sr)));
        Expr *lo = X.bin(E_SHL, X.konst(w, 1), X.konst(w, w - 1)), *hi = X.bin(E_SUB, lo, X.konst(w, 1));
        res.push_back(mk(X.ite(o, X.ite(sxx, lo, hi), r)));
      } else if (f->name.compare(0, 9, "llvm.usub") == 0) res.push_back(mk(X.ite(X.bin(E_ULT, x, y), X.konst(w, 0), X.bin(E_SUB, x, y))));
      else { Expr *s = X.bin(E_ADD, x, y); res.push_back(mk(X.ite(X.bin(E_ULT, s, x), X.konst(w, maskw(w)), s))); }
      return;
    }
    case X_OVF: {
      Expr *y = ex(a[1], w);
      const std::string &n = f->name;
      bool sg = n[5] == 's';
      std::string op = n.substr(6, 3);
      if (op == "mul") {
        if (w > 64) limitHit("wide multiply");
        Expr *p = sg ? X.bin(E_MUL, X.sext(x, 2 * w), X.sext(y, 2 * w)) : X.bin(E_MUL, X.zext(x, 2 * w), X.zext(y, 2 * w));
        Expr *lo = X.extract(p, 0, w);
        Expr *ok = X.bin(E_EQ, sg ? X.sext(lo, 2 * w) : X.zext(lo, 2 * w), p);
        res.push_back(mk(lo)); res.push_back(mk(X.not1(ok)));
      } else {
        Expr *r = X.bin(op == "add" ? E_ADD : E_SUB, x, y), *o;
        if (!sg) o = op == "add" ? X.bin(E_ULT, r, x) : X.bin(E_ULT, x, y);
        else {
          Expr *sxx = X.extract(x, w - 1, 1), *sy = X.extract(y, w - 1, 1), *sr = X.extract(r, w - 1, 1);
          Expr *same = X.bin(E_EQ, sxx, sy), *chg = X.not1(X.bin(E_EQ, sxx, sr));
          o = X.bin(E_AND, op == "add" ? same : X.not1(same), chg);
        }
        res.push_back(mk(r)); res.push_back(mk(o));
      }
      return;
    }
    case X_CLZ: { Expr *r = X.konst(w, w); for (unsigned i = 0; i < w; i++) r = X.link(X.extract(x, i, 1), X.konst(w, w - 1 - i), r); res.push_back(mk(r)); return; }
    case X_CTZ: { Expr *r = X.konst(w, w); for (unsigned i = w; i-- > 0;) r = X.ite(X.extract(x, i, 1), X.konst(w, i), r); res.push_back(mk(r)); return; }
    case X_POPCNT: { Expr *r = X.konst(w, 0); for (unsigned i = 0; i < w; i++) r = w == 1 ? x : X.bin(E_ADD, r, X.zext(X.extract(x, i, 1), w)); res.push_back(mk(r)); return; }
    case X_FSH: {
      bool l = f->name.compare(0, 9, "llvm.fshl") == 0;
      Expr *y = ex(a[1], w), *z = X.bin(E_UREM, ex(a[2], w), X.konst(w, w));
      Expr *inv = X.bin(E_SUB, X.konst(w, w), z);
      Expr *r = l ? X.bin(E_OR, X.bin(E_SHL, x, z), X.bin(E_LSHR, y, inv)) : X.bin(E_OR, X.bin(E_SHL, x, inv), X.bin(E_LSHR, y, z));
      res.push_back(mk(r));
      return;
    }
    case X_ABS: res.push_back(mk(X.ite(X.bin(E_SLT, x, X.konst(w, 0)), X.bin(E_SUB, X.konst(w, 0), x), x))); return;
    case X_CMP3: {
      Expr *y = ex(a[1], w);
      bool sg = f->name[5] == 's';
      unsigned rw = rty->w;
      res.push_back(mk(X.ite(X.bin(sg ? E_SLT : E_ULT, x, y), X.konst(rw, maskw(rw)), X.ite(X.bin(E_EQ, x, y), X.konst(rw, 0), X.konst(rw, 1)))));
      return;
    }
    case X_BITREV: { Expr *r = X.extract(x, 0, 1); for (unsigned i = 1; i < w; i++) r = X.concat(r, X.extract(x, i, 1)); res.push_back(mk(r)); return; }
    case X_BSWAP: { Expr *r = X.extract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) r = X.concat(r, X.extract(x, i, 8)); res.push_back(mk(r)); return; }
  }
  limitHit("unmodelled intrinsic " + f->name);
}

// ---------- execution ----------
static Val binVal(int op, unsigned w, Val a, Val b) {
  if (!a.e && !b.e && w <= 64) return cv((u64)Exprs::foldBin((EOp)op, w, a.c, b.c));
  return mk(X.bin((EOp)op, ex(a, w), ex(b, w)));
}
static Val icmpVal(int p, unsigned w, Val a, Val b) {
  EOp op; bool neg = false, sw = false;
  switch (p) {
    case P_EQ: op = E_EQ; break;
    case P_NE: op = E_EQ; neg = true; break;
    case P_ULT: op = E_ULT; break;
    case P_ULE: op = E_ULE; break;
    case P_UGT: op = E_ULT; sw = true; break;
    case P_UGE: op = E_ULE; sw = true; break;
    case P_SLT: op = E_SLT; break;
    case P_SLE: op = E_SLE; break;
    case P_SGT: op = E_SLT; sw = true; break;
    default: op = E_SLE; sw = true; break;
  }
  if (sw) std::swap(a, b);
  if (!a.e && !b.e && w <= 64) { u64 r = (u64)Exprs::foldBin(op, w, a.c, b.c); return cv(neg ? !r : r); }
  Expr *e = X.bin(op, ex(a, w), ex(b, w));
  return mk(neg ? X.not1(e) : e);
}

static void enter(State &st, Function *f, const std::vector<Val> &args, int dst, int normal) {
  M.compile(f);
  if (st.fr.size() > 400) violate(st, "hang", "call depth above 400");
  f->calls++;
  Frame *fr = new Frame;
  fr->f = f;
  fr->regs.assign(f->nslots, Val{nullptr, 0});
  size_t k = 0;
  for (size_t i = 0; i < f->pslot.size(); i++) {
    size_t n = Types::leaves(f->pty[i]).size();
    for (size_t j = 0; j < n && k < args.size(); j++) fr->regs[f->pslot[i] + j] = args[k++];
  }
  fr->dst = dst; fr->normal = normal;
  if (f->frameSize) {
    u64 id;
    if (!st.freeStack.empty()) { id = st.freeStack.back(); st.freeStack.pop_back(); }
    else id = st.nextHeap++;
    st.mem.set(id, newObj(f->frameSize, 1));
    fr->obj = id;
  }
  st.fr.push_back(fr);
}

static void jump(State &st, int to) {
  Frame *f = st.top();
  Block &b = f->f->blocks[to];
  if (!b.phis.empty()) {
    static std::vector<Val> tmp;
    tmp.clear();
    for (Phi &p : b.phis) {
      const Opnd *o = nullptr;
      for (auto &in : p.in) if (in.first == f->blk) { o = &in.second; break; }
      if (!o) limitHit("phi without incoming edge");
      for (unsigned i = 0; i < p.n; i++) tmp.push_back(o->slot >= 0 ? f->regs[o->slot + i] : o->cs ? (*o->cs)[i] : o->c);
    }
    size_t k = 0;
    for (Phi &p : b.phis) for (unsigned i = 0; i < p.n; i++) f->regs[p.dst + i] = tmp[k++];
  }
  f->blk = to; f->ip = 0;
}

static void finishPath(State &st) {
  if (!st.vw.empty()) nSymPaths++;
  for (int c : std::set<int>(st.covers.begin(), st.covers.end())) coverCount[c]++;
  sampleSeen++;
  size_t slot = samples.size() < 8 ? samples.size() : (size_t)(rnd() % sampleSeen);
  if (slot < 8) {
    Sample s;
    s.in = st.model; s.in.resize(st.vw.size(), 0); s.w = st.vw;
    for (auto &o : st.obs) s.obs.push_back(o.first ? (u64)X.eval(o.first, st.model) : o.second);
    if (slot == samples.size()) samples.push_back(s); else samples[slot] = s;
  }
}

static void run(State &st) {
  for (;;) {
    Frame *f = st.top();
    Ins &in = f->f->blocks[f->blk].ins[f->ip];
    if (++st.icount > MAX_INSTR) violate(st, "hang", "more than " + std::to_string(MAX_INSTR) + " instructions on one path");
    if (showState) { showState = 0; fprintf(stderr, "%llu paths, %zu waiting, %llu instructions: %s\n", (unsigned long long)nPaths, work.size(), (unsigned long long)nInstr, stackOf(st).c_str()); }
    nInstr++; f->f->instrs++;
    if ((nInstr & 4095) == 0 && now() - T0 > TIME_LIMIT) limitHit("time limit");
    auto G = [&](const Opnd &o, unsigned lane = 0) -> Val { return o.slot >= 0 ? f->regs[o.slot + lane] : o.cs ? (*o.cs)[lane] : o.c; };
    switch (in.op) {
      case O_BIN: {
        unsigned w = in.ty2->w, n = in.o[0].n;
        bool div = in.sub >= E_UDIV && in.sub <= E_SREM;
        for (unsigned i = 0; i < n; i++) {
          Val a = G(in.o[0], i), b = G(in.o[1], i);
          Val r = binVal(in.sub, w, a, b);
          // A size worked out from a bit count (instead of by comparing) has few values, and terms
          // that add up several of them are hard to solve: fork on it, as on a comparison.
          if (r.e && r.e->count && !b.e && (div || in.sub == E_LSHR) && r.e->ub - r.e->lb <= 16) { auto k = st.conc; r = cv(concretize(st, r, w)); st.conc = k; f = st.top(); }
          f->regs[in.dst + i] = r;
        }
        f->ip++;
        break;
      }
      case O_ICMP: {
        unsigned w = in.ty2->w, n = in.o[0].n;
        for (unsigned i = 0; i < n; i++) f->regs[in.dst + i] = icmpVal(in.sub, w, G(in.o[0], i), G(in.o[1], i));
        f->ip++;
        break;
      }
      case O_ALLOCA:
        if (in.sub == 0) f->regs[in.dst] = cv((f->obj << OBJ_SHIFT) + (u64)in.cases[0]);
        else { u64 n = concretize(st, G(in.o[0]), 64) * in.imm; f = st.top(); u64 id = st.nextHeap++; st.mem.set(id, newObj(n, 1)); f->regs[in.dst] = cv(id << OBJ_SHIFT); }
        f->ip++;
        break;
      case O_LOAD: {
        Val a = G(in.o[0]);
        auto &lv = Types::leaves(in.ty);
        if (lv.size() == 1) { Val v = loadScalar(st, a, lv[0].first); f->regs[in.dst] = v; }
        else {
          u64 ad = concretize(st, a, 64);
          for (size_t i = 0; i < lv.size(); i++) f->regs[in.dst + i] = loadScalar(st, cv(ad + lv[i].second), lv[i].first);
        }
        st.conc = 0;
        f->ip++;
        break;
      }
      case O_STORE: {
        Val p = G(in.o[1]);
        u64 ad = concretize(st, p, 64);
        auto &lv = Types::leaves(in.ty2);
        for (size_t i = 0; i < lv.size(); i++) storeScalar(st, ad + lv[i].second, lv[i].first, G(in.o[0], (unsigned)i));
        st.conc = 0;
        f->ip++;
        break;
      }
      case O_GEP: {
        Val b = G(in.o[0]);
        u64 k = in.imm;
        bool sym = b.e != nullptr;
        for (size_t i = 1; i < in.o.size(); i++) if (G(in.o[i]).e) sym = true;
        if (!sym) {
          u64 a = b.c + k;
          for (size_t i = 1; i < in.o.size(); i++) a += (u64)sx(G(in.o[i]).c, in.sc[i - 1].second) * in.sc[i - 1].first;
          f->regs[in.dst] = cv(a);
        } else {
          Expr *e = X.bin(E_ADD, ex(b, 64), X.konst(64, k));
          for (size_t i = 1; i < in.o.size(); i++) {
            Expr *ix = ex(G(in.o[i]), in.sc[i - 1].second);
            ix = ix->w < 64 ? X.sext(ix, 64) : ix;
            e = X.bin(E_ADD, e, X.bin(E_MUL, ix, X.konst(64, in.sc[i - 1].first)));
          }
          // keep the shape remainder + constant
          if (e->op == E_ADD && !Exprs::isC(e->b)) {
            Expr *l = e->a, *r = e->b; u64 cst = 0;
            if (l->op == E_ADD && Exprs::isC(l->b)) { cst += (u64)l->b->val; l = l->a; }
            if (r->op == E_ADD && Exprs::isC(r->b)) { cst += (u64)r->b->val; r = r->a; }
            if (cst) e = X.bin(E_ADD, X.bin(E_ADD, l, r), X.konst(64, cst));
          }
          f->regs[in.dst] = mk(e);
        }
        f->ip++;
        break;
      }
      case O_CAST: {
        unsigned n = in.o[0].n;
        unsigned sw = in.ty2->k == T_VEC ? in.ty2->el->w : in.ty2->w, dw = in.ty->k == T_VEC ? in.ty->el->w : in.ty->w;
        for (unsigned i = 0; i < n; i++) {
          Val v = G(in.o[0], i);
          Val r;
          if (!v.e && sw <= 64 && dw <= 64) {
            u64 x = v.c;
            if (in.sub == C_SEXT) x = (u64)sx(x, sw);
            if (dw < 64) x &= ((u64)1 << dw) - 1;
            r = cv(x);
          } else if (n == 1 && sw == 1 && dw >= 32 && dw <= 64) {
            u64 t = branch(st, v.e) & 1; f = st.top();
            r = cv(!t ? 0 : in.sub == C_SEXT ? maskw(dw) : 1);
          } else {
            Expr *e = ex(v, sw);
            if (dw < sw) e = X.extract(e, 0, dw);
            else if (dw > sw) e = in.sub == C_SEXT ? X.sext(e, dw) : X.zext(e, dw);
            r = mk(e);
          }
          f->regs[in.dst + i] = r;
        }
        f->ip++;
        break;
      }
      case O_BITCAST: {
        if (in.ty2->k == T_VEC && in.ty->k == T_INT) {
          Expr *e = nullptr;
          for (unsigned i = (unsigned)in.ty2->n; i-- > 0;) { Expr *x = ex(G(in.o[0], i), in.ty2->el->w); e = e ? X.concat(e, x) : x; }
          f->regs[in.dst] = mk(e);
        } else if (in.ty->k == T_VEC && in.ty2->k == T_INT) {
          Expr *e = ex(G(in.o[0]), in.ty2->w);
          for (unsigned i = 0; i < in.ty->n; i++) f->regs[in.dst + i] = mk(X.extract(e, i * in.ty->el->w, in.ty->el->w));
        } else if (in.ty->k == T_VEC && in.ty2->k == T_VEC) {
          Expr *e = nullptr;
          for (unsigned i = (unsigned)in.ty2->n; i-- > 0;) { Expr *x = ex(G(in.o[0], i), in.ty2->el->w); e = e ? X.concat(e, x) : x; }
          for (unsigned i = 0; i < in.ty->n; i++) f->regs[in.dst + i] = mk(X.extract(e, i * in.ty->el->w, in.ty->el->w));
        } else f->regs[in.dst] = G(in.o[0]);
        f->ip++;
        break;
      }
      case O_SELECT: {
        unsigned n = (unsigned)Types::leaves(in.ty).size();
        auto &lv = Types::leaves(in.ty);
        for (unsigned i = 0; i < n; i++) {
          Val c = G(in.o[0], in.ty2->k == T_VEC ? i : 0);
          Val r;
          if (!c.e) r = G(in.o[c.c & 1 ? 1 : 2], i);
          else if (in.ty2->k != T_VEC) { r = choice(st, c, G(in.o[1], i), G(in.o[2], i), lv[i].first->w); f = st.top(); }
          else {
            auto k = st.known.find(c.e);
            if (k != st.known.end()) r = G(in.o[k->second ? 1 : 2], i);
            else r = mk(X.ite(c.e, ex(G(in.o[1], i), lv[i].first->w), ex(G(in.o[2], i), lv[i].first->w)));
          }
          f->regs[in.dst + i] = r;
        }
        f->ip++;
        break;
      }
      case O_COPY:
        for (unsigned i = 0; i < in.o[0].n; i++) f->regs[in.dst + i] = G(in.o[0], i);
        f->ip++;
        break;
      case O_EXTRACTVALUE: {
        unsigned n = (unsigned)Types::leaves(in.ty).size();
        for (unsigned i = 0; i < n; i++) f->regs[in.dst + i] = G(in.o[0], (unsigned)in.imm + i);
        f->ip++;
        break;
      }
      case O_INSERTVALUE: {
        unsigned n = (unsigned)Types::leaves(in.ty).size();
        for (unsigned i = 0; i < n; i++) f->regs[in.dst + i] = i >= in.imm && i < in.imm + in.o[1].n ? G(in.o[1], i - (unsigned)in.imm) : G(in.o[0], i);
        f->ip++;
        break;
      }
      case O_EXTRACTELEMENT: { u64 i = concretize(st, G(in.o[1]), 64); f->regs[in.dst] = G(in.o[0], (unsigned)i); f->ip++; break; }
      case O_INSERTELEMENT: {
        u64 k = concretize(st, G(in.o[2]), 64);
        for (unsigned i = 0; i < in.o[0].n; i++) f->regs[in.dst + i] = i == k ? G(in.o[1]) : G(in.o[0], i);
        f->ip++;
        break;
      }
      case O_SHUFFLE:
        for (unsigned i = 0; i < in.o[2].n; i++) {
          u64 k = (u64)G(in.o[2], i).c & 0xffffffff;
          f->regs[in.dst + i] = k < in.imm ? G(in.o[0], (unsigned)k) : k < 2 * in.imm ? G(in.o[1], (unsigned)(k - in.imm)) : cv(0);
        }
        f->ip++;
        break;
      case O_ATOMICRMW: {
        u64 ad = concretize(st, G(in.o[0]), 64);
        Val old = loadScalar(st, cv(ad), in.ty), v = G(in.o[1]), nv;
        unsigned w = in.ty->w;
        switch (in.sub) {
          case 0: nv = v; break;
          case 1: nv = binVal(E_ADD, w, old, v); break;
          case 2: nv = binVal(E_SUB, w, old, v); break;
          case 3: nv = binVal(E_AND, w, old, v); break;
          case 4: nv = binVal(E_OR, w, old, v); break;
          case 5: nv = binVal(E_XOR, w, old, v); break;
          case 6: nv = mk(X.ite(X.bin(E_ULT, ex(old, w), ex(v, w)), ex(v, w), ex(old, w))); break;
          default: nv = mk(X.ite(X.bin(E_ULT, ex(old, w), ex(v, w)), ex(old, w), ex(v, w))); break;
        }
        storeScalar(st, ad, in.ty, nv);
        if (in.dst >= 0) f->regs[in.dst] = old;
        f->ip++;
        break;
      }
      case O_CMPXCHG: {
        u64 ad = concretize(st, G(in.o[0]), 64);
        Val old = loadScalar(st, cv(ad), in.ty2);
        Val eq = icmpVal(P_EQ, in.ty2->w, old, G(in.o[1]));
        u64 t = eq.e ? branch(st, eq.e) : eq.c;
        if (t) storeScalar(st, ad, in.ty2, G(in.o[2]));
        if (in.dst >= 0) { f->regs[in.dst] = old; f->regs[in.dst + 1] = cv(t); }
        f->ip++;
        break;
      }
      case O_BR: jump(st, in.aux[0]); break;
      case O_CONDBR: {
        Val c = G(in.o[0]);
        u64 t = c.e ? branch(st, c.e) : c.c & 1;
        jump(st, in.aux[t ? 0 : 1]);
        break;
      }
      case O_SWITCH: {
        Val v = G(in.o[0]);
        unsigned w = in.ty2->w;
        if (v.e) { auto k = st.known.find(v.e); if (k != st.known.end()) v = cv(k->second); }
        if (!v.e) {
          int to = in.aux[0];
          for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == v.c) { to = in.aux[i + 1]; break; }
          jump(st, to);
        } else {
          u64 m = (u64)X.eval(v.e, st.model);
          int to = in.aux[0];
          for (size_t i = 0; i < in.cases.size(); i++) if ((u64)in.cases[i] == m) { to = in.aux[i + 1]; break; }
          // condition selecting the destination the model takes
          Expr *c = X.konst(1, 0);
          if (to != in.aux[0]) { for (size_t i = 0; i < in.cases.size(); i++) if (in.aux[i + 1] == to) c = X.bin(E_OR, c, X.bin(E_EQ, v.e, X.konst(w, in.cases[i]))); }
          else { for (size_t i = 0; i < in.cases.size(); i++) if (in.aux[i + 1] != to) c = X.bin(E_OR, c, X.bin(E_EQ, v.e, X.konst(w, in.cases[i]))); c = X.not1(c); }
          u64 t = c->op == E_CONST ? (u64)c->val : branch(st, c);
          (void)t;  // the model satisfies c, so t == 1; a sibling re-executes the switch for the rest
          jump(st, to);
        }
        break;
      }
      case O_RET: {
        static std::vector<Val> rv;
        rv.clear();
        if (!in.o.empty()) for (unsigned i = 0; i < in.o[0].n; i++) rv.push_back(G(in.o[0], i));
        int dst = f->dst, normal = f->normal;
        if (f->obj) { st.mem.set(f->obj, nullptr); st.freeStack.push_back(f->obj); }
        if (--f->rc == 0) delete f;
        st.fr.pop_back();
        if (st.fr.empty()) {
          for (Expr *e : st.pc) if (!X.eval(e, st.model)) limitHit("internal: the path's model does not satisfy its condition");
          throw PathEnd{0};
        }
        Frame *c = st.top();
        if (dst >= 0) for (size_t i = 0; i < rv.size(); i++) c->regs[dst + i] = rv[i];
        if (normal >= 0) jump(st, normal); else c->ip++;
        break;
      }
      case O_UNREACHABLE: violate(st, "unreachable", "reached code the compiler considers unreachable"); break;
      case O_CALL: {
        static std::vector<Val> args;
        args.clear();
        if (in.sub == 1) { if (in.dst >= 0) limitHit("inline assembly"); if (in.aux.empty()) f->ip++; else jump(st, in.aux[0]); break; }
        Function *callee = in.callee;
        size_t k = 0;
        if (!callee) {
          u64 a = concretize(st, G(in.o[0]), 64);
          auto it = M.byAddr.find(a);
          if (it == M.byAddr.end()) violate(st, "memory", "call through a pointer that is no function: " + hex(a));
          callee = it->second;
          k = 1;
        }
        for (; k < in.o.size(); k++) for (unsigned i = 0; i < in.o[k].n; i++) args.push_back(G(in.o[k], i));
        if (callee->isPanic) violate(st, "panic", callee->pretty, location(st, args));
        if (callee->isAllocErr) violate(st, "alloc", "allocation failure (memory exhausted or size chosen by the input)");
        if (callee->ext < 0) markExt(callee);
        if (callee->ext == X_NONE) {
          enter(st, callee, std::vector<Val>(args), in.dst, in.aux.empty() ? -1 : in.aux[0]);
        } else {
          std::vector<Val> res, av(args);
          callee->calls++;
          callExt(st, callee, in.ty, av, in.aty, res);
          st.conc = 0;
          f = st.top();
          if (in.dst >= 0) for (size_t i = 0; i < res.size(); i++) f->regs[in.dst + i] = res[i];
          if (in.aux.empty()) f->ip++; else jump(st, in.aux[0]);
        }
        break;
      }
      case O_UNSUPPORTED: limitHit("unsupported instruction: " + in.text); break;
    }
  }
}

static void runState(State *st) {
  try { run(*st); }
  catch (PathEnd &p) {
    if (p.why == 0) { nPaths++; finishPath(*st); }
    else if (p.why == 1) nAssumed++;
    else if (p.why == 2) { nPaths++; }
    if (st->icount > maxPathInstr) maxPathInstr = st->icount;
  }
  catch (Err &e) { incomplete[std::string("engine: ") + e.what()]++; }
  delete st;
}

static void drain() {
  while (!work.empty()) {
    if (now() - T0 > TIME_LIMIT) { incomplete["time limit"] += work.size(); for (auto *s : work) delete s; work.clear(); break; }
    State *s = work.back(); work.pop_back();
    runState(s);
  }
}

static std::string nums(const std::vector<u64> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string(v[i]); return r + "]"; }
static std::string widths(const std::vector<uint8_t> &v) { std::string r = "["; for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + std::to_string((int)v[i]); return r + "]"; }

static void emit(FILE *o) {
  fprintf(o, "{\"paths\":%llu,\"assumed_away\":%llu,\"forks\":%llu,\"asserts\":%llu,\"instructions\":%llu,\"max_path_instructions\":%llu,\"violating_paths\":%llu,\"symbolic_paths\":%llu,",
          (unsigned long long)nPaths, (unsigned long long)nAssumed, (unsigned long long)nForks, (unsigned long long)nAsserts, (unsigned long long)nInstr, (unsigned long long)maxPathInstr, (unsigned long long)nViolPaths, (unsigned long long)nSymPaths);
  fprintf(o, "\"queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"solver_seconds\":%.3f,\"seconds\":%.3f,",
          (unsigned long long)S.queries, (unsigned long long)S.sat, (unsigned long long)S.unsat, (unsigned long long)S.unknown, (unsigned long long)S.cacheHits, (unsigned long long)S.modelHits, S.seconds, now() - T0);
  fprintf(o, "\"incomplete\":{");
  bool first = true;
  for (auto &p : incomplete) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(o, "},\"covers\":{");
  first = true;
  for (auto &p : coverCount) { fprintf(o, "%s\"%d\":%llu", first ? "" : ",", p.first, (unsigned long long)p.second); first = false; }
  fprintf(o, "},\"violations\":[");
  first = true;
  for (auto &v : viols) {
    fprintf(o, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"code\":%d,\"stack\":%s,\"inputs\":%s,\"widths\":%s}", first ? "" : ",", jstr(v.kind).c_str(), jstr(v.msg).c_str(), jstr(v.loc).c_str(), v.code, jstr(v.stack).c_str(), nums(v.in).c_str(), widths(v.w).c_str());
    first = false;
  }
  fprintf(o, "],\"samples\":[");
  first = true;
  for (auto &s : samples) { fprintf(o, "%s{\"inputs\":%s,\"widths\":%s,\"obs\":%s}", first ? "" : ",", nums(s.in).c_str(), widths(s.w).c_str(), nums(s.obs).c_str()); first = false; }
  fprintf(o, "],\"functions\":{");
  first = true;
  for (auto &p : M.funcs) if (!p.second->isDecl && p.second->calls) { fprintf(o, "%s%s:%llu", first ? "" : ",", jstr(p.second->pretty).c_str(), (unsigned long long)p.second->instrs); first = false; }
  fprintf(o, "}}\n");
}

int main(int argc, char **argv) {
  if (argc < 4) { fprintf(stderr, "usage: symx FILE.ll HARNESS OUT [--jobs N] [--time S] [--max-instr N] [--seed N]\n"); return 2; }
  signal(SIGUSR1, [](int) { showState = 1; });
  int jobs = 1;
  for (int i = 4; i + 1 < argc; i += 2) {
    std::string k = argv[i];
    if (k == "--jobs") jobs = atoi(argv[i + 1]);
    else if (k == "--time") TIME_LIMIT = atof(argv[i + 1]);
    else if (k == "--max-instr") MAX_INSTR = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--deep") DEEP = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--seed") SEED = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--max-viol") MAX_VIOL = strtoull(argv[i + 1], nullptr, 10);
    else if (k == "--format") stubFormat = atoi(argv[i + 1]) == 0;
  }
  T0 = now();
  rng ^= SEED * 0x9E3779B97F4A7C15ull;
  std::string out = argv[3];
  try {
    M.load(argv[1]);
    S.init();
    auto it = M.funcs.find(argv[2]);
    if (it == M.funcs.end() || it->second->isDecl) { fprintf(stderr, "symx: no harness %s\n", argv[2]); return 2; }
    State *st = new State;
    st->nextHeap = M.nextId + 64;
    for (auto *g : M.gorder) {
      if (g->weak) continue;
      Obj *o = newObj(g->size, 2);
      std::vector<uint8_t> b = M.initBytes(g);
      memcpy(o->d, b.data(), b.size());
      o->ro = g->isConst;
      st->mem.set(g->addr >> OBJ_SHIFT, o);
    }
    enter(*st, it->second, {}, -1, -1);
    work.push_back(st);
    if (jobs <= 1) drain();
    else {
      // breadth-first until there is enough to share out
      size_t head = 0;
      double tb = now();
      while (head < work.size() && work.size() - head < (size_t)jobs * 32 && (now() - tb < 2 || work.size() - head < (size_t)jobs * 2) && now() - T0 < TIME_LIMIT) {
        State *s = work[head]; work[head] = nullptr; head++;
        runState(s);
      }
      work.erase(work.begin(), work.begin() + head);
      if (!work.empty()) {
        auto *ctr = (std::atomic<size_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (ctr) std::atomic<size_t>(0);
        std::vector<State *> all;
        all.swap(work);
        FILE *o = fopen((out + ".0").c_str(), "w"); emit(o); fclose(o);
        fflush(nullptr);
        std::vector<pid_t> pids;
        for (int j = 0; j < jobs; j++) {
          pid_t p = ::fork();
          if (p == 0) {
            // counters restart in the worker
            nPaths = nAssumed = nForks = nAsserts = nInstr = sampleSeen = maxPathInstr = nViolPaths = nSymPaths = 0;
            S.queries = S.sat = S.unsat = S.unknown = S.cacheHits = S.modelHits = 0; S.seconds = 0;
            viols.clear(); incomplete.clear(); coverCount.clear(); samples.clear();
            for (auto &q : M.funcs) q.second->calls = q.second->instrs = 0;
            rng += 0x1234567 * (j + 1);
            int rc = 0;
            try {
              for (;;) { size_t k = ctr->fetch_add(1); if (k >= all.size()) break; work.push_back(all[k]); all[k] = nullptr; drain(); }
            } catch (std::exception &e) { incomplete[std::string("engine: ") + e.what()]++; rc = 0; }
            FILE *w = fopen((out + "." + std::to_string(j + 1)).c_str(), "w"); emit(w); fclose(w);
            _exit(rc);
          }
          pids.push_back(p);
        }
        bool bad = false;
        for (pid_t p : pids) { int stt; waitpid(p, &stt, 0); if (!WIFEXITED(stt) || WEXITSTATUS(stt)) bad = true; }
        FILE *d = fopen(out.c_str(), "w"); fprintf(d, "{\"parts\":%d,\"bad\":%s}\n", jobs + 1, bad ? "true" : "false"); fclose(d);
        return 0;
      }
    }
    FILE *o = fopen(out.c_str(), "w"); emit(o); fclose(o);
  } catch (std::exception &e) { fprintf(stderr, "symx: %s\n", e.what()); return 2; }
  fflush(nullptr);
  _exit(0);
}
