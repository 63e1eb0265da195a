// Hash-consed bit-vector expressions with local simplification and known-bits folding.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <algorithm>
#include <time.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;
typedef uint64_t u64;

enum EOp : uint8_t {
  E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM,
  E_AND, E_OR, E_XOR, E_SHL, E_LSHR, E_ASHR,
  E_EQ, E_ULT, E_ULE, E_SLT, E_SLE,
  E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE
};

struct Expr {
  EOp op;
  uint8_t w;           // width in bits, 1..128
  uint8_t lo;          // E_EXTRACT: low bit
  uint32_t id;
  Expr *a, *b, *c;
  u128 val;            // E_CONST: value, E_VAR: index
  u128 k0, k1;         // known-zero / known-one bits
  u128 lb, ub;         // unsigned bounds
  u128 vs;             // variables occurring (bit = index mod 128)
  Z3_ast z;
  uint32_t stamp;
  u128 ev;
  bool count;          // computed from a count of leading or trailing zeros
};

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

static inline __int128 sx(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  u128 s = (u128)1 << (w - 1);
  return (__int128)((v ^ s)) - (__int128)s;
}

static inline unsigned bitlen(u128 v) {
  u64 h = (u64)(v >> 64), l = (u64)v;
  if (h) return 128 - __builtin_clzll(h);
  if (l) return 64 - __builtin_clzll(l);
  return 0;
}

struct ExprKeyHash {
  size_t operator()(const Expr *e) const {
    u64 h = (u64)e->op * 0x9E3779B97F4A7C15ull;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
    mix(e->w); mix(e->lo); mix((u64)e->a >> 4); mix((u64)e->b >> 4); mix((u64)e->c >> 4);
    mix((u64)e->val); mix((u64)(e->val >> 64));
    return h;
  }
};
struct ExprKeyEq {
  bool operator()(const Expr *x, const Expr *y) const {
    return x->op == y->op && x->w == y->w && x->lo == y->lo && x->a == y->a && x->b == y->b &&
           x->c == y->c && x->val == y->val;
  }
};

struct VarInfo { unsigned w; };

struct Exprs {
  std::unordered_map<Expr *, Expr *, ExprKeyHash, ExprKeyEq> table;
  uint32_t nextId = 1;
  uint32_t stamp = 1;

  Expr *intern(Expr t) {
    auto it = table.find(&t);
    if (it != table.end()) return it->second;
    Expr *e = new Expr(t);
    e->id = nextId++;
    e->z = nullptr;
    e->stamp = 0;
    e->vs = 0;
    if (e->op == E_VAR) e->vs = (u128)1 << (unsigned)(e->val & 127);
    if (e->a) e->vs |= e->a->vs;
    if (e->b) e->vs |= e->b->vs;
    if (e->c) e->vs |= e->c->vs;
    e->count = e->w > 1 && ((e->a && e->a->count) || (e->b && e->b->count) || (e->c && e->c->count));
    known(e);
    bounds(e);
    u128 m = maskw(e->w);
    if (e->op != E_CONST && (((e->k0 | e->k1) & m) == m || e->lb == e->ub)) {
      u128 v = e->lb;
      unsigned w = e->w;
      delete e;
      return konst(w, v);
    }
    table.emplace(e, e);
    return e;
  }

  static Expr blank(EOp op, unsigned w) {
    Expr t; memset(&t, 0, sizeof t);
    t.op = op; t.w = (uint8_t)w;
    return t;
  }

  Expr *konst(unsigned w, u128 v) {
    Expr t = blank(E_CONST, w);
    t.val = v & maskw(w);
    return intern(t);
  }
  Expr *var(unsigned w, u64 idx) {
    Expr t = blank(E_VAR, w);
    t.val = idx;
    return intern(t);
  }

  static bool isC(Expr *e) { return e->op == E_CONST; }
  static bool isC(Expr *e, u128 v) { return e->op == E_CONST && e->val == v; }
  static u128 umin(Expr *e) { return e->lb; }
  static u128 umax(Expr *e) { return e->ub; }

  static void bounds(Expr *e) {
    u128 m = maskw(e->w), l = e->k1, u = ~e->k0 & m;
    Expr *a = e->a, *b = e->b;
    auto meet = [&](u128 lo, u128 hi) { if (lo > l) l = lo; if (hi < u) u = hi; };
    if (e->w < 128) switch (e->op) {
      case E_ADD:
        if (a->ub + b->ub <= m) meet(a->lb + b->lb, a->ub + b->ub);
        else if (a->lb + b->lb > m) meet(a->lb + b->lb - m - 1, a->ub + b->ub - m - 1);
        break;
      case E_SUB: if (a->lb >= b->ub) meet(a->lb - b->ub, a->ub - b->lb); break;
      case E_MUL: if (e->w <= 64 && a->ub * b->ub <= m) meet(a->lb * b->lb, a->ub * b->ub); break;
      case E_UDIV: if (b->lb) meet(a->lb / b->ub, a->ub / b->lb); break;
      case E_UREM: if (b->lb) meet(0, b->ub - 1); meet(0, a->ub); break;
      case E_AND: meet(0, a->ub < b->ub ? a->ub : b->ub); break;
      case E_OR: meet(a->lb > b->lb ? a->lb : b->lb, m); break;
      case E_LSHR: if (isC(b) && b->val < e->w) meet(a->lb >> (unsigned)b->val, a->ub >> (unsigned)b->val); else meet(0, a->ub); break;
      case E_SHL: if (isC(b) && e->w <= 64 && b->val < e->w && (a->ub << (unsigned)b->val) <= m) meet(a->lb << (unsigned)b->val, a->ub << (unsigned)b->val); break;
      case E_ZEXT: meet(a->lb, a->ub); break;
      case E_EXTRACT: if (e->lo == 0 && a->ub <= m) meet(a->lb, a->ub); break;
      case E_ITE: meet(b->lb < e->c->lb ? b->lb : e->c->lb, b->ub > e->c->ub ? b->ub : e->c->ub); break;
      default: break;
    }
    e->lb = l; e->ub = u;
    // leading zeros that follow from the bound
    e->k0 |= m & ~maskw(bitlen(u));
  }

  void known(Expr *e) {
    u128 m = maskw(e->w);
    Expr *a = e->a, *b = e->b;
    e->k0 = e->k1 = 0;
    switch (e->op) {
      case E_CONST: e->k1 = e->val; e->k0 = ~e->val & m; break;
      case E_AND: e->k1 = a->k1 & b->k1; e->k0 = a->k0 | b->k0; break;
      case E_OR: e->k1 = a->k1 | b->k1; e->k0 = a->k0 & b->k0; break;
      case E_XOR: e->k0 = (a->k0 & b->k0) | (a->k1 & b->k1); e->k1 = (a->k0 & b->k1) | (a->k1 & b->k0); break;
      case E_SHL: if (isC(b)) { if (b->val >= e->w) { e->k0 = m; } else { unsigned s = (unsigned)b->val; e->k1 = (a->k1 << s) & m; e->k0 = ((a->k0 << s) | maskw(s)) & m; } } break;
      case E_LSHR: if (isC(b)) { if (b->val >= e->w) { e->k0 = m; } else { unsigned s = (unsigned)b->val; e->k1 = a->k1 >> s; e->k0 = ((a->k0 & m) >> s) | (m & ~(m >> s)); } }
        else { unsigned n = bitlen(umax(a)); e->k0 = m & ~maskw(n); } break;
      case E_ASHR: if (isC(b) && b->val < e->w) {
          unsigned s = (unsigned)b->val; u128 hi = m & ~(m >> s), sb = (u128)1 << (e->w - 1);
          e->k1 = (a->k1 & m) >> s; e->k0 = (a->k0 & m) >> s;
          if (a->k1 & sb) e->k1 |= hi; else if (a->k0 & sb) e->k0 |= hi;
        } break;
      case E_ZEXT: e->k1 = a->k1; e->k0 = a->k0 | (m & ~maskw(a->w)); break;
      case E_SEXT: { u128 sb = (u128)1 << (a->w - 1), hi = m & ~maskw(a->w); e->k1 = a->k1; e->k0 = a->k0;
          if (a->k1 & sb) e->k1 |= hi; else if (a->k0 & sb) e->k0 |= hi; } break;
      case E_EXTRACT: e->k1 = (a->k1 >> e->lo) & m; e->k0 = (a->k0 >> e->lo) & m; break;
      case E_CONCAT: e->k1 = (a->k1 << b->w) | b->k1; e->k0 = (a->k0 << b->w) | b->k0; break;
      case E_ITE: e->k1 = b->k1 & e->c->k1; e->k0 = b->k0 & e->c->k0; break;
      case E_ADD: {
        u128 xa = umax(a), xb = umax(b);
        if (e->w < 128 && xa + xb <= m) e->k0 = m & ~maskw(bitlen(xa + xb));
        u128 za = ~a->k0 & m, zb = ~b->k0 & m;   // trailing zeros
        u128 t = za | zb; if (t) { u128 low = t & (~t + 1); e->k0 |= low - 1; }
      } break;
      case E_MUL: { unsigned n = bitlen(umax(a)) + bitlen(umax(b)); if (n < e->w) e->k0 = m & ~maskw(n); } break;
      case E_UDIV: { unsigned n = bitlen(umax(a)); if (isC(b) && b->val) e->k0 = m & ~maskw(bitlen(umax(a) / b->val)); (void)n; } break;
      case E_UREM: if (isC(b) && b->val) { unsigned n = bitlen(b->val - 1), n2 = bitlen(umax(a)); e->k0 = m & ~maskw(n < n2 ? n : n2); } break;
      default: break;
    }
    e->k0 &= m; e->k1 &= m;
  }

  static u128 foldBin(EOp op, unsigned w, u128 x, u128 y) {
    u128 m = maskw(w);
    switch (op) {
      case E_ADD: return (x + y) & m;
      case E_SUB: return (x - y) & m;
      case E_MUL: return (x * y) & m;
      case E_UDIV: return y ? x / y : m;
      case E_UREM: return y ? x % y : x;
      case E_SDIV: { __int128 a = sx(x, w), b = sx(y, w); if (!b) return a < 0 ? 1 : m; if (b == -1) return (0 - x) & m; return (u128)(a / b) & m; }
      case E_SREM: { __int128 a = sx(x, w), b = sx(y, w); if (!b) return x; if (b == -1) return 0; return (u128)(a % b) & m; }
      case E_AND: return x & y;
      case E_OR: return x | y;
      case E_XOR: return x ^ y;
      case E_SHL: return y >= w ? 0 : (x << (unsigned)y) & m;
      case E_LSHR: return y >= w ? 0 : x >> (unsigned)y;
      case E_ASHR: { __int128 a = sx(x, w); unsigned s = y >= w ? w - 1 : (unsigned)y; return (u128)(a >> s) & m; }
      case E_EQ: return x == y;
      case E_ULT: return x < y;
      case E_ULE: return x <= y;
      case E_SLT: return sx(x, w) < sx(y, w);
      case E_SLE: return sx(x, w) <= sx(y, w);
      default: abort();
    }
  }

  // A count of zeros is a chain of choices between constants.  Arithmetic with a constant goes into
  // the leaves, where it folds, and equal leaves join: (64 - clz(x) + 6) / 7 stays a short chain.
  static bool chain(Expr *e) { return e->count && e->op == E_ITE && isC(e->b); }
  Expr *link(Expr *c, Expr *a, Expr *b) {
    if (a->w == 1) return ite(c, a, b);
    if (b->op == E_ITE && b->b == a) { c = bin(E_OR, c, b->a); b = b->c; }
    Expr *r = ite(c, a, b);
    if (r->op == E_ITE) r->count = true;
    return r;
  }

  Expr *not1(Expr *x) { return bin(E_XOR, x, konst(1, 1)); }
  bool isNot(Expr *e, Expr **inner) {
    if (e->op == E_XOR && e->w == 1 && isC(e->b, 1)) { *inner = e->a; return true; }
    return false;
  }

  Expr *mk2(EOp op, unsigned w, Expr *a, Expr *b) {
    Expr t = blank(op, w);
    t.a = a; t.b = b;
    return intern(t);
  }

  Expr *bin(EOp op, Expr *a, Expr *b) {
    unsigned w = a->w;
    if (a->w != b->w) { fprintf(stderr, "engine: width mismatch in expression (op %d: %d vs %d)\n", op, a->w, b->w); abort(); }
    bool cmp = op >= E_EQ && op <= E_SLE;
    if (isC(a) && isC(b)) return konst(cmp ? 1 : w, foldBin(op, w, a->val, b->val));
    if (isC(b) && chain(a)) return link(a->a, bin(op, a->b, b), bin(op, a->c, b));
    if (isC(a) && chain(b)) return link(b->a, bin(op, a, b->b), bin(op, a, b->c));
    bool comm = op == E_ADD || op == E_MUL || op == E_AND || op == E_OR || op == E_XOR || op == E_EQ;
    if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
    u128 m = maskw(w);
    switch (op) {
      case E_ADD:
        if (isC(b, 0)) return a;
        if (isC(b) && a->op == E_ADD && isC(a->b)) return bin(E_ADD, a->a, konst(w, a->b->val + b->val));
        if (w == 1) return bin(E_XOR, a, b);
        break;
      case E_SUB:
        if (isC(b, 0)) return a;
        if (a == b) return konst(w, 0);
        if (isC(b)) return bin(E_ADD, a, konst(w, 0 - b->val));
        if (w == 1) return bin(E_XOR, a, b);
        break;
      case E_MUL:
        if (isC(b, 0)) return b;
        if (isC(b, 1)) return a;
        if (isC(b) && (b->val & (b->val - 1)) == 0) return bin(E_SHL, a, konst(w, bitlen(b->val) - 1));
        if (w == 1) return bin(E_AND, a, b);
        break;
      case E_UDIV:
        if (isC(b, 1)) return a;
        if (umax(a) < umin(b)) return konst(w, 0);
        if (isC(b) && w <= 64) {
          // (x * b + y) / b
          Expr *p = a->op == E_ADD ? a->a : a, *q = a->op == E_ADD ? a->b : nullptr;
          if (q && q->op == E_MUL && q->b == b) std::swap(p, q);
          if (p->op == E_MUL && p->b == b && (!q || q->ub < b->val) && p->a->ub * b->val + (q ? q->ub : 0) <= m) return p->a;
        }
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(E_LSHR, a, konst(w, bitlen(b->val) - 1));
        break;
      case E_UREM:
        if (umax(a) < umin(b)) return a;
        if (isC(b) && w <= 64) {
          // (x * b + y) % b
          Expr *p = a->op == E_ADD ? a->a : a, *q = a->op == E_ADD ? a->b : nullptr;
          if (q && q->op == E_MUL && q->b == b) std::swap(p, q);
          if (p->op == E_MUL && p->b == b && p->a->ub * b->val + (q ? q->ub : 0) <= m) return q ? bin(E_UREM, q, b) : konst(w, 0);
        }
        if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return bin(E_AND, a, konst(w, b->val - 1));
        break;
      case E_AND:
        if (a == b) return a;
        if (isC(b)) {
          if (b->val == 0) return b;
          if ((~a->k0 & ~b->val & m) == 0) return a;  // mask keeps every possible bit
          if (a->op == E_AND && isC(a->b)) return bin(E_AND, a->a, konst(w, a->b->val & b->val));
          if (a->op == E_ZEXT) return zext(bin(E_AND, a->a, konst(a->a->w, b->val)), w);
        }
        break;
      case E_OR:
        if (a == b) return a;
        if (isC(b)) {
          if (b->val == 0) return a;
          if (b->val == m) return b;
          if (a->op == E_OR && isC(a->b)) return bin(E_OR, a->a, konst(w, a->b->val | b->val));
        }
        break;
      case E_XOR:
        if (a == b) return konst(w, 0);
        if (isC(b)) {
          if (b->val == 0) return a;
          if (a->op == E_XOR && isC(a->b)) return bin(E_XOR, a->a, konst(w, a->b->val ^ b->val));
        }
        break;
      case E_SHL:
        if (isC(b, 0)) return a;
        if (isC(b) && b->val >= w) return konst(w, 0);
        if (isC(b) && a->op == E_SHL && isC(a->b)) { u128 s = a->b->val + b->val; return s >= w ? konst(w, 0) : bin(E_SHL, a->a, konst(w, s)); }
        break;
      case E_LSHR:
        if (isC(b, 0)) return a;
        if (isC(b) && b->val >= w) return konst(w, 0);
        if (isC(b) && a->op == E_LSHR && isC(a->b)) { u128 s = a->b->val + b->val; return s >= w ? konst(w, 0) : bin(E_LSHR, a->a, konst(w, s)); }
        if (isC(b) && a->op == E_ZEXT) { if (b->val >= a->a->w) return konst(w, 0); return zext(bin(E_LSHR, a->a, konst(a->a->w, b->val)), w); }
        break;
      case E_ASHR:
        if (isC(b, 0)) return a;
        if (a->k0 & ((u128)1 << (w - 1))) return bin(E_LSHR, a, b);
        break;
      case E_EQ: {
        if (a == b) return konst(1, 1);
        if ((a->k1 & b->k0) | (a->k0 & b->k1)) return konst(1, 0);
        if (umax(a) < umin(b) || umax(b) < umin(a)) return konst(1, 0);
        if (w == 1 && isC(b)) return b->val ? a : not1(a);
        if (isC(b)) {
          u128 v = b->val;
          Expr *x;
          switch (a->op) {
            case E_ZEXT: return bin(E_EQ, a->a, konst(a->a->w, v));
            case E_SEXT: { u128 t = v & maskw(a->a->w); if (((u128)sx(t, a->a->w) & m) != v) return konst(1, 0); return bin(E_EQ, a->a, konst(a->a->w, t)); }
            case E_CONCAT: return bin(E_AND, bin(E_EQ, a->a, konst(a->a->w, v >> a->b->w)), bin(E_EQ, a->b, konst(a->b->w, v)));
            case E_XOR: if (isC(a->b)) return bin(E_EQ, a->a, konst(w, v ^ a->b->val)); break;
            case E_ADD: if (isC(a->b)) return bin(E_EQ, a->a, konst(w, v - a->b->val)); break;
            case E_ITE:
              if (isC(a->b) || isC(a->c)) {
                return ite(a->a, bin(E_EQ, a->b, b), bin(E_EQ, a->c, b));
              }
              break;
            default: break;
          }
          (void)x;
        }
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_EQ, a->a, b->a);
        break;
      }
      case E_ULT:
        if (a == b) return konst(1, 0);
        if (umax(a) < umin(b)) return konst(1, 1);
        if (umin(a) >= umax(b)) return konst(1, 0);
        if (isC(b, 1)) return bin(E_EQ, a, konst(w, 0));
        if (isC(b) && a->op == E_ZEXT) return bin(E_ULT, a->a, konst(a->a->w, b->val));
        if (isC(a) && b->op == E_ZEXT) return bin(E_ULT, konst(b->a->w, a->val), b->a);
        if (a->op == E_ZEXT && b->op == E_ZEXT && a->a->w == b->a->w) return bin(E_ULT, a->a, b->a);
        break;
      case E_ULE:
        return not1(bin(E_ULT, b, a));
      case E_SLT: {
        if (a == b) return konst(1, 0);
        u128 sb = (u128)1 << (w - 1);
        if ((a->k0 & sb) && (b->k0 & sb)) return bin(E_ULT, a, b);
        if ((a->k1 & sb) && (b->k1 & sb)) return bin(E_ULT, a, b);
        if ((a->k1 & sb) && (b->k0 & sb)) return konst(1, 1);
        if ((a->k0 & sb) && (b->k1 & sb)) return konst(1, 0);
        if (isC(b, 0)) return extract(a, w - 1, 1);
        break;
      }
      case E_SLE:
        return not1(bin(E_SLT, b, a));
      default: break;
    }
    return mk2(op, cmp ? 1 : w, a, b);
  }

  Expr *zext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (chain(a)) return link(a->a, zext(a->b, w), zext(a->c, w));
    if (isC(a)) return konst(w, a->val);
    if (a->op == E_ZEXT) return zext(a->a, w);
    Expr t = blank(E_ZEXT, w); t.a = a;
    return intern(t);
  }
  Expr *sext(Expr *a, unsigned w) {
    if (a->w == w) return a;
    if (chain(a)) return link(a->a, sext(a->b, w), sext(a->c, w));
    if (isC(a)) return konst(w, (u128)sx(a->val, a->w));
    if (a->k0 & ((u128)1 << (a->w - 1))) return zext(a, w);
    if (a->op == E_SEXT) return sext(a->a, w);
    Expr t = blank(E_SEXT, w); t.a = a;
    return intern(t);
  }
  // width-n field of a starting at bit lo
  Expr *extract(Expr *a, unsigned lo, unsigned n) {
    if (lo == 0 && n == a->w) return a;
    if (isC(a)) return konst(n, a->val >> lo);
    if (chain(a)) return link(a->a, extract(a->b, lo, n), extract(a->c, lo, n));
    switch (a->op) {
      case E_EXTRACT: return extract(a->a, a->lo + lo, n);
      case E_ZEXT:
        if (lo >= a->a->w) return konst(n, 0);
        if (lo + n <= a->a->w) return extract(a->a, lo, n);
        return zext(extract(a->a, lo, a->a->w - lo), n);
      case E_SEXT:
        if (lo + n <= a->a->w) return extract(a->a, lo, n);
        break;
      case E_CONCAT:
        if (lo >= a->b->w) return extract(a->a, lo - a->b->w, n);
        if (lo + n <= a->b->w) return extract(a->b, lo, n);
        return concat(extract(a->a, 0, lo + n - a->b->w), extract(a->b, lo, a->b->w - lo));
      case E_LSHR:
        if (isC(a->b) && a->b->val + lo + n <= a->w) return extract(a->a, (unsigned)a->b->val + lo, n);
        break;
      case E_SHL:
        if (isC(a->b)) {
          if (lo >= a->b->val) return extract(a->a, lo - (unsigned)a->b->val, n);
          if (lo + n <= a->b->val) return konst(n, 0);
        }
        break;
      case E_AND: case E_OR: case E_XOR:
        return bin(a->op, extract(a->a, lo, n), extract(a->b, lo, n));
      case E_ADD: case E_SUB: case E_MUL:
        if (lo == 0) return bin(a->op, extract(a->a, 0, n), extract(a->b, 0, n));
        break;
      case E_ITE:
        return ite(a->a, extract(a->b, lo, n), extract(a->c, lo, n));
      default: break;
    }
    Expr t = blank(E_EXTRACT, n); t.a = a; t.lo = (uint8_t)lo;
    return intern(t);
  }
  Expr *concat(Expr *hi, Expr *lo) {
    unsigned w = hi->w + lo->w;
    if (isC(hi) && isC(lo)) return konst(w, (hi->val << lo->w) | lo->val);
    if (isC(hi, 0)) return zext(lo, w);
    if (hi->op == E_EXTRACT && lo->op == E_EXTRACT && hi->a == lo->a && hi->lo == lo->lo + lo->w)
      return extract(hi->a, lo->lo, w);
    if (hi->op == E_EXTRACT && hi->a == lo && hi->lo == lo->w) return extract(lo, 0, w); // unreachable (width), kept for safety
    if (hi->op == E_CONCAT) {
      Expr *t = hi->b;
      if ((t->op == E_EXTRACT && lo->op == E_EXTRACT && t->a == lo->a && t->lo == lo->lo + lo->w) || (isC(t) && isC(lo)))
        return concat(hi->a, concat(t, lo));
    }
    if (hi->op == E_ZEXT) {
      return zext(concat(hi->a, lo), w);
    }
    Expr t = blank(E_CONCAT, w); t.a = hi; t.b = lo;
    return intern(t);
  }
  Expr *ite(Expr *c, Expr *a, Expr *b) {
    if (isC(c)) return c->val ? a : b;
    if (a == b) return a;
    Expr *n;
    if (isNot(c, &n)) return ite(n, b, a);
    if (a->w == 1) {
      if (isC(a)) return a->val ? bin(E_OR, c, b) : bin(E_AND, not1(c), b);
      if (isC(b)) return b->val ? bin(E_OR, not1(c), a) : bin(E_AND, c, a);
    }
    if (isC(a) && isC(b) && a->val == 1 && b->val == 0) return zext(c, a->w);
    if (isC(a) && isC(b) && a->val == 0 && b->val == 1) return zext(not1(c), a->w);
    if (a->op == E_ITE && a->a == c) return ite(c, a->b, b);
    if (b->op == E_ITE && b->a == c) return ite(c, a, b->c);
    Expr t = blank(E_ITE, a->w); t.a = c; t.b = a; t.c = b;
    return intern(t);
  }

  u128 evalRec(Expr *e, const std::vector<u64> &m) {
    if (e->op == E_CONST) return e->val;
    if (e->stamp == stamp) return e->ev;
    u128 r;
    switch (e->op) {
      case E_VAR: r = (u64)e->val < m.size() ? (u128)m[(u64)e->val] & maskw(e->w) : 0; break;
      case E_ZEXT: r = evalRec(e->a, m); break;
      case E_SEXT: r = (u128)sx(evalRec(e->a, m), e->a->w) & maskw(e->w); break;
      case E_EXTRACT: r = (evalRec(e->a, m) >> e->lo) & maskw(e->w); break;
      case E_CONCAT: r = (evalRec(e->a, m) << e->b->w) | evalRec(e->b, m); break;
      case E_ITE: r = evalRec(e->a, m) ? evalRec(e->b, m) : evalRec(e->c, m); break;
      default: r = foldBin(e->op, e->a->w, evalRec(e->a, m), evalRec(e->b, m)); break;
    }
    e->stamp = stamp; e->ev = r;
    return r;
  }
  u128 eval(Expr *e, const std::vector<u64> &m) {
    if (e->op == E_CONST) return e->val;
    stamp++;
    return evalRec(e, m);
  }
};

struct Solver {
  Z3_context ctx = nullptr;
  Z3_solver s = nullptr;
  u64 queries = 0, sat = 0, unsat = 0, unknown = 0;
  double seconds = 0;

  void init() {
    Z3_config cfg = Z3_mk_config();
    Z3_set_param_value(cfg, "model", "true");
    ctx = Z3_mk_context(cfg);
    Z3_del_config(cfg);
    reset();
  }
  // A resource limit, not a wall-clock timeout: z3's timer uses threads, which do not survive fork().
  void reset() {
    if (s) Z3_solver_dec_ref(ctx, s);
    s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), 200000000);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    lits.clear();
  }

  Z3_ast num(unsigned w, u128 v) {
    char buf[48]; int i = 47; buf[i] = 0;
    if (!v) buf[--i] = '0';
    while (v) { buf[--i] = '0' + (int)(v % 10); v /= 10; }
    return Z3_mk_numeral(ctx, buf + i, Z3_mk_bv_sort(ctx, w));
  }

  // i1 expressions are Z3 Booleans; wider ones are bit-vectors.
  Z3_ast asBv(Expr *e) {
    Z3_ast x = tr(e);
    if (e->w == 1) return Z3_mk_ite(ctx, x, num(1, 1), num(1, 0));
    return x;
  }
  Z3_ast bit(Z3_ast bv1) { return Z3_mk_eq(ctx, bv1, num(1, 1)); }

  Z3_ast tr(Expr *e) {
    if (e->z) return e->z;
    Z3_ast r = nullptr;
    bool one = e->w == 1;
    switch (e->op) {
      case E_CONST: r = one ? (e->val ? Z3_mk_true(ctx) : Z3_mk_false(ctx)) : num(e->w, e->val); break;
      case E_VAR: {
        char n[32]; snprintf(n, sizeof n, "v%llu_%u", (unsigned long long)e->val, e->w);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), one ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w));
        break;
      }
      case E_ADD: r = Z3_mk_bvadd(ctx, tr(e->a), tr(e->b)); break;
      case E_SUB: r = Z3_mk_bvsub(ctx, tr(e->a), tr(e->b)); break;
      case E_MUL: r = Z3_mk_bvmul(ctx, tr(e->a), tr(e->b)); break;
      case E_UDIV: r = Z3_mk_bvudiv(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_SDIV: r = Z3_mk_bvsdiv(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_UREM: r = Z3_mk_bvurem(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_SREM: r = Z3_mk_bvsrem(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_AND: if (one) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_and(ctx, 2, x); } else r = Z3_mk_bvand(ctx, tr(e->a), tr(e->b)); break;
      case E_OR: if (one) { Z3_ast x[2] = {tr(e->a), tr(e->b)}; r = Z3_mk_or(ctx, 2, x); } else r = Z3_mk_bvor(ctx, tr(e->a), tr(e->b)); break;
      case E_XOR: if (one) { r = Exprs::isC(e->b, 1) ? Z3_mk_not(ctx, tr(e->a)) : Z3_mk_xor(ctx, tr(e->a), tr(e->b)); } else r = Z3_mk_bvxor(ctx, tr(e->a), tr(e->b)); break;
      case E_SHL: r = Z3_mk_bvshl(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_LSHR: r = Z3_mk_bvlshr(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_ASHR: r = Z3_mk_bvashr(ctx, asBv(e->a), asBv(e->b)); if (one) r = bit(r); break;
      case E_EQ: r = Z3_mk_eq(ctx, tr(e->a), tr(e->b)); break;
      case E_ULT: r = Z3_mk_bvult(ctx, asBv(e->a), asBv(e->b)); break;
      case E_ULE: r = Z3_mk_bvule(ctx, asBv(e->a), asBv(e->b)); break;
      case E_SLT: r = Z3_mk_bvslt(ctx, asBv(e->a), asBv(e->b)); break;
      case E_SLE: r = Z3_mk_bvsle(ctx, asBv(e->a), asBv(e->b)); break;
      case E_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(ctx, tr(e->a), num(e->w, 1), num(e->w, 0)); else r = Z3_mk_zero_ext(ctx, e->w - e->a->w, tr(e->a)); break;
      case E_SEXT: if (e->a->w == 1) r = Z3_mk_ite(ctx, tr(e->a), num(e->w, maskw(e->w)), num(e->w, 0)); else r = Z3_mk_sign_ext(ctx, e->w - e->a->w, tr(e->a)); break;
      case E_EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, asBv(e->a)); if (one) r = bit(r); break;
      case E_CONCAT: r = Z3_mk_concat(ctx, asBv(e->a), asBv(e->b)); break;
      case E_ITE: r = Z3_mk_ite(ctx, tr(e->a), tr(e->b), tr(e->c)); break;
    }
    e->z = r;
    return r;
  }


  // Unsatisfiable cores, by their newest constraint: any superset is unsatisfiable too.
  std::unordered_map<Expr *, std::vector<std::vector<Expr *>>> cores;
  u64 coreHits = 0;
  std::unordered_map<Expr *, Z3_ast> lits;
  std::unordered_map<std::string, std::pair<int, std::vector<std::pair<u64, u64>>>> cache;
  std::vector<std::vector<u64>> recent;
  u64 cacheHits = 0, modelHits = 0;
  size_t recentNext = 0;

  Z3_ast lit(Expr *e) {
    auto it = lits.find(e);
    if (it != lits.end()) return it->second;
    char n[24]; snprintf(n, sizeof n, "p%u", e->id);
    Z3_ast l = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), Z3_mk_bool_sort(ctx));
    Z3_solver_assert(ctx, s, Z3_mk_implies(ctx, l, tr(e)));
    lits[e] = l;
    return l;
  }

  // Is pc && extra satisfiable?  Only the constraints of pc that (transitively) share variables with
  // extra are sent: the caller's current model satisfies the rest.  On sat, `model` (which must
  // satisfy pc on entry) is updated.  Returns 1 sat, 0 unsat, -1 unknown.
  int check(Exprs &X, const std::vector<Expr *> &pc, Expr *extra, std::vector<u64> &model) {
    if (Exprs::isC(extra)) return extra->val ? 1 : 0;
    u128 mask = extra->vs;
    std::vector<Expr *> sl;
    std::vector<char> used(pc.size(), 0);
    for (bool ch = true; ch;) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++)
        if (!used[i] && (pc[i]->vs & mask)) { used[i] = 1; sl.push_back(pc[i]); u128 n = mask | pc[i]->vs; ch |= n != mask; mask = n; }
    }
    sl.push_back(extra);
    std::sort(sl.begin(), sl.end(), [](Expr *x, Expr *y) { return x->id < y->id; });
    sl.erase(std::unique(sl.begin(), sl.end()), sl.end());
    std::string key((sl.size()) * 4, 0);
    for (size_t i = 0; i < sl.size(); i++) memcpy(&key[i * 4], &sl[i]->id, 4);
    auto c = cache.find(key);
    if (c != cache.end()) {
      cacheHits++;
      if (c->second.first == 1) for (auto &p : c->second.second) { if (model.size() <= p.first) model.resize(p.first + 1, 0); model[p.first] = p.second; }
      return c->second.first;
    }
    auto inSlice = [&](u64 i) { return (mask >> (unsigned)(i & 127)) & 1; };
    auto finish = [&](int r, const std::vector<u64> &m) {
      auto &ent = cache[key];
      ent.first = r;
      if (r == 1) {
        for (u64 i = 0; i < 128; i++) if (inSlice(i)) {
          u64 x = i < m.size() ? m[i] : 0;  // as evaluated
          ent.second.push_back({i, x});
          if (model.size() <= i) model.resize(i + 1, 0);
          model[i] = x;
        }
      }
      return r;
    };
    auto known = cores.find(extra);
    if (known != cores.end())
      for (auto &core : known->second) {
        bool all = true;
        for (Expr *e : core)
          if (!std::binary_search(sl.begin(), sl.end(), e, [](Expr *x, Expr *y) { return x->id < y->id; })) { all = false; break; }
        if (all) { coreHits++; return 0; }
      }
    for (auto &m : recent) {
      X.stamp++;
      bool ok = true;
      for (auto it = sl.rbegin(); it != sl.rend() && ok; ++it) ok = X.evalRec(*it, m) != 0;
      if (ok) { modelHits++; return finish(1, m); }
    }
    timespec t0, t1;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    if (lits.size() > 100) reset();
    std::vector<Z3_ast> as;
    for (Expr *e : sl) as.push_back(lit(e));
    queries++;
    Z3_lbool r = Z3_solver_check_assumptions(ctx, s, (unsigned)as.size(), as.data());
    int res = r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
    std::vector<u64> m = model;
    if (res == 1) {
      sat++;
      Z3_model zm = Z3_solver_get_model(ctx, s);
      Z3_model_inc_ref(ctx, zm);
      std::vector<Expr *> vs;
      collect(sl, vs);
      for (Expr *v : vs) {
        Z3_ast out; u64 x = 0;
        if (Z3_model_eval(ctx, zm, tr(v), true, &out)) {
          if (v->w == 1) x = Z3_get_bool_value(ctx, out) == Z3_L_TRUE;
          else { uint64_t t = 0; Z3_get_numeral_uint64(ctx, out, &t); x = t; }
        }
        if (m.size() <= (u64)v->val) m.resize((u64)v->val + 1, 0);
        m[(u64)v->val] = x;
      }
      Z3_model_dec_ref(ctx, zm);
      if (recent.size() < 24) recent.push_back(m);
      else { recent[recentNext] = m; recentNext = (recentNext + 1) % recent.size(); }
    } else if (res == 0) {
      unsat++;
      Z3_ast_vector uc = Z3_solver_get_unsat_core(ctx, s);
      Z3_ast_vector_inc_ref(ctx, uc);
      std::vector<Expr *> core;
      for (unsigned i = 0, n = Z3_ast_vector_size(ctx, uc); i < n; i++) {
        Z3_ast a = Z3_ast_vector_get(ctx, uc, i);
        for (size_t j = 0; j < as.size(); j++) if (as[j] == a) { if (sl[j] != extra) core.push_back(sl[j]); break; }
      }
      Z3_ast_vector_dec_ref(ctx, uc);
      cores[extra].push_back(core);
    }
    else unknown++;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    seconds += (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    if (res < 0) return res;
    return finish(res, m);
  }

  void collect(const std::vector<Expr *> &roots, std::vector<Expr *> &vs) {
    std::unordered_set<Expr *> seen;
    std::vector<Expr *> st(roots);
    while (!st.empty()) {
      Expr *e = st.back(); st.pop_back();
      if (!e || !seen.insert(e).second) continue;
      if (e->op == E_VAR) vs.push_back(e);
      st.push_back(e->a); st.push_back(e->b); st.push_back(e->c);
    }
  }
};
