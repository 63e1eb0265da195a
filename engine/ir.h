// Reader for the textual LLVM IR that rustc emits: types, globals, functions, instructions.
#pragma once
#include "expr.h"
#include <fcntl.h>
#include <map>
#include <stdexcept>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

struct Err : std::runtime_error { using std::runtime_error::runtime_error; };

static const unsigned OBJ_SHIFT = 26;  // every object starts at id << OBJ_SHIFT

enum TK : uint8_t { T_VOID, T_INT, T_PTR, T_FLOAT, T_ARRAY, T_STRUCT, T_VEC, T_LABEL, T_META };
struct Type {
  TK k; unsigned w = 0;            // int width
  u64 n = 0; Type *el = nullptr;   // array / vector
  std::vector<Type *> f; bool packed = false;
  u64 size = 0, align = 1;         // allocation size
  std::vector<u64> off;
  std::vector<std::pair<Type *, u64>> leaves;  // scalars with byte offsets
  bool leavesDone = false;
};

struct Types {
  std::map<std::string, Type *> cache;
  Type *mk(const std::string &key, Type t) {
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    Type *p = new Type(t);
    layout(p);
    cache[key] = p;
    return p;
  }
  static void layout(Type *t) {
    switch (t->k) {
      case T_INT: { u64 b = (t->w + 7) / 8, a = 1; while (a < b) a *= 2; if (a > 16) a = 16; t->align = a; t->size = (b + a - 1) / a * a; break; }
      case T_FLOAT: t->size = t->align = t->w / 8 > 8 ? 16 : t->w / 8; break;
      case T_PTR: t->size = t->align = 8; break;
      case T_ARRAY: t->size = t->n * t->el->size; t->align = t->el->align; break;
      case T_VEC: { u64 bits = t->n * (t->el->k == T_PTR ? 64 : t->el->w); t->size = (bits + 7) / 8; u64 a = 1; while (a < t->size) a *= 2; t->align = a; t->size = a; break; }
      case T_STRUCT: {
        u64 o = 0, al = 1;
        for (Type *x : t->f) {
          u64 a = t->packed ? 1 : x->align;
          o = (o + a - 1) / a * a; t->off.push_back(o); o += x->size; if (a > al) al = a;
        }
        t->align = al; t->size = (o + al - 1) / al * al; break;
      }
      default: break;
    }
  }
  static void leavesOf(Type *t, u64 base, std::vector<std::pair<Type *, u64>> &out) {
    switch (t->k) {
      case T_ARRAY: for (u64 i = 0; i < t->n; i++) leavesOf(t->el, base + i * t->el->size, out); break;
      case T_VEC: for (u64 i = 0; i < t->n; i++) { if (t->el->k == T_INT && t->el->w % 8) out.push_back({t->el, base + i}); else leavesOf(t->el, base + i * t->el->size, out); } break;
      case T_STRUCT: for (size_t i = 0; i < t->f.size(); i++) leavesOf(t->f[i], base + t->off[i], out); break;
      case T_VOID: break;
      default: out.push_back({t, base});
    }
  }
  static const std::vector<std::pair<Type *, u64>> &leaves(Type *t) {
    if (!t->leavesDone) { leavesOf(t, 0, t->leaves); t->leavesDone = true; }
    return t->leaves;
  }
  Type *integer(unsigned w) { Type t; t.k = T_INT; t.w = w; return mk("i" + std::to_string(w), t); }
  Type *ptr() { Type t; t.k = T_PTR; t.w = 64; return mk("ptr", t); }
  Type *simple(TK k, const char *n, unsigned w = 0) { Type t; t.k = k; t.w = w; return mk(n, t); }
};

struct Val { Expr *e; u64 c; };  // e == nullptr: concrete value c (width <= 64)
static inline Val cv(u64 c) { return Val{nullptr, c}; }

struct Opnd { int slot = -1; unsigned n = 1; Val c{nullptr, 0}; std::vector<Val> *cs = nullptr; };

enum Op : uint8_t {
  O_RET, O_BR, O_CONDBR, O_SWITCH, O_CALL, O_UNREACHABLE, O_BIN, O_ICMP, O_ALLOCA, O_LOAD, O_STORE, O_GEP,
  O_CAST, O_SELECT, O_EXTRACTVALUE, O_INSERTVALUE, O_ATOMICRMW, O_CMPXCHG, O_COPY, O_EXTRACTELEMENT,
  O_INSERTELEMENT, O_SHUFFLE, O_BITCAST, O_UNSUPPORTED
};
enum CastK : uint8_t { C_TRUNC, C_ZEXT, C_SEXT, C_PTR };
enum Pred : uint8_t { P_EQ, P_NE, P_UGT, P_UGE, P_ULT, P_ULE, P_SGT, P_SGE, P_SLT, P_SLE };

struct Function;
struct Ins {
  Op op; uint8_t sub = 0;
  Type *ty = nullptr, *ty2 = nullptr;
  int dst = -1;
  std::vector<Opnd> o;
  std::vector<int> aux;                     // block indices, value indices
  std::vector<std::pair<u64, unsigned>> sc; // gep: scale, index width
  std::vector<u128> cases;                  // switch
  u64 imm = 0;
  std::vector<Type *> aty;                  // call argument types
  Function *callee = nullptr;
  std::string text;
  bool sret = false;
};
struct Phi { int dst; unsigned n; std::vector<std::pair<int, Opnd>> in; };
struct Block { std::vector<Phi> phis; std::vector<Ins> ins; };

struct Function {
  std::string name, pretty;
  bool isDecl = true, weak = false;
  size_t lineBegin = 0, lineEnd = 0;
  u64 addr = 0;
  bool compiled = false, bad = false;
  Type *ret = nullptr;
  std::vector<Type *> pty;
  std::vector<int> pslot;
  int nslots = 0;
  std::vector<Block> blocks;
  u64 frameSize = 0;
  u64 calls = 0, instrs = 0;
  bool isPanic = false, isAllocErr = false;
  int ext = -1;  // extern / intrinsic handler
};

struct GlobalVar {
  std::string name; u64 addr = 0, size = 0; Type *ty = nullptr;
  std::string init; bool isConst = false, weak = false;
};

struct Module {
  Types T; Exprs &X;
  char *buf = nullptr; size_t len = 0;
  std::vector<std::pair<const char *, const char *>> lines;
  std::unordered_map<std::string, Function *> funcs;
  std::unordered_map<std::string, GlobalVar *> globals;
  std::vector<GlobalVar *> gorder;
  std::unordered_map<u64, Function *> byAddr;
  std::map<std::string, Type *> named;
  std::unordered_map<std::string, std::string> aliases;
  u64 nextId = 16;
  explicit Module(Exprs &x) : X(x) {}

  u64 take(u64 size) { u64 a = nextId << OBJ_SHIFT; nextId += 1 + (size >> OBJ_SHIFT); return a; }

  // ---- lexing over [p,end) ----
  struct Cur { const char *p, *e; };
  static void ws(Cur &c) { while (c.p < c.e && (*c.p == ' ' || *c.p == '\t' || *c.p == '\n')) c.p++; }
  static bool eat(Cur &c, const char *s) { ws(c); size_t n = strlen(s); if ((size_t)(c.e - c.p) >= n && !memcmp(c.p, s, n)) { c.p += n; return true; } return false; }
  static bool identc(char ch) { return isalnum((unsigned char)ch) || ch == '_' || ch == '.' || ch == '$' || ch == '-'; }
  static std::string peekWord(Cur c) { ws(c); const char *s = c.p; while (c.p < c.e && (isalnum((unsigned char)*c.p) || *c.p == '_' || *c.p == '.')) c.p++; return std::string(s, c.p); }
  static std::string word(Cur &c) { std::string w = peekWord(c); ws(c); c.p += w.size(); return w; }
  static bool eatWord(Cur &c, const char *s) { if (peekWord(c) == s) { word(c); return true; } return false; }
  static void expect(Cur &c, const char *s) { if (!eat(c, s)) throw Err(std::string("expected '") + s + "' at: " + std::string(c.p, std::min<size_t>(80, c.e - c.p))); }
  static std::string nameAfterSigil(Cur &c) {  // c.p at the char after % or @
    if (c.p < c.e && *c.p == '"') { const char *s = ++c.p; while (*c.p != '"') c.p++; std::string r(s, c.p); c.p++; return r; }
    const char *s = c.p; while (c.p < c.e && identc(*c.p)) c.p++;
    return std::string(s, c.p);
  }
  static void skipParens(Cur &c) {
    ws(c);
    if (c.p >= c.e || *c.p != '(') return;
    int d = 0;
    while (c.p < c.e) { char ch = *c.p++; if (ch == '"') { while (*c.p != '"') c.p++; c.p++; } else if (ch == '(') d++; else if (ch == ')' && --d == 0) return; }
  }

  static bool typeStart(Cur c) {
    ws(c);
    if (c.p >= c.e) return false;
    char ch = *c.p;
    if (ch == '{' || ch == '[' || ch == '<') return true;
    std::string w = peekWord(c);
    if (w == "void" || w == "ptr" || w == "label" || w == "metadata" || w == "float" || w == "double" || w == "half" || w == "fp128" || w == "x86_fp80" || w == "bfloat" || w == "token") return true;
    if (w.size() > 1 && w[0] == 'i') { for (size_t i = 1; i < w.size(); i++) if (!isdigit((unsigned char)w[i])) return false; return true; }
    return ch == '%';
  }
  Type *type(Cur &c) {
    ws(c);
    char ch = *c.p;
    Type *r = nullptr;
    if (ch == '{') { c.p++; r = structBody(c, false, '}'); }
    else if (ch == '<') {
      Cur d = c; d.p++; ws(d);
      if (*d.p == '{') { c = d; c.p++; r = structBody(c, true, '}'); expect(c, ">"); }
      else { c.p++; u64 n = strtoull(c.p, nullptr, 10); word(c); expect(c, "x"); Type *el = type(c); expect(c, ">");
        Type t; t.k = T_VEC; t.n = n; t.el = el; r = T.mk("<" + std::to_string(n) + "x" + std::to_string((u64)el) + ">", t); }
    }
    else if (ch == '[') { c.p++; ws(c); u64 n = strtoull(c.p, nullptr, 10); word(c); expect(c, "x"); Type *el = type(c); expect(c, "]");
      Type t; t.k = T_ARRAY; t.n = n; t.el = el; r = T.mk("[" + std::to_string(n) + "x" + std::to_string((u64)el) + "]", t); }
    else if (ch == '%') { c.p++; std::string n = nameAfterSigil(c); auto it = named.find(n); if (it == named.end()) throw Err("unknown type %" + n); r = it->second; }
    else {
      std::string w = word(c);
      if (w == "void") r = T.simple(T_VOID, "void");
      else if (w == "ptr") r = T.ptr();
      else if (w == "label") r = T.simple(T_LABEL, "label");
      else if (w == "metadata" || w == "token") r = T.simple(T_META, "metadata");
      else if (w == "float") r = T.simple(T_FLOAT, "float", 32);
      else if (w == "double") r = T.simple(T_FLOAT, "double", 64);
      else if (w == "half" || w == "bfloat") r = T.simple(T_FLOAT, "half", 16);
      else if (w == "x86_fp80" || w == "fp128") r = T.simple(T_FLOAT, "fp128", 128);
      else if (w.size() > 1 && w[0] == 'i' && isdigit((unsigned char)w[1])) r = T.integer(atoi(w.c_str() + 1));
      else throw Err("bad type '" + w + "'");
    }
    return r;
  }
  Type *structBody(Cur &c, bool packed, char) {
    Type t; t.k = T_STRUCT; t.packed = packed;
    std::string key = packed ? "<{" : "{";
    if (!eat(c, "}")) { for (;;) { Type *f = type(c); t.f.push_back(f); key += std::to_string((u64)f) + ","; if (eat(c, "}")) break; expect(c, ","); } }
    return T.mk(key + "}", t);
  }

  // skip attribute words until the predicate holds
  template <class P> static void skipAttrs(Cur &c, P stop) {
    for (;;) {
      ws(c);
      if (c.p >= c.e || stop(c)) return;
      if (*c.p == '#') { c.p++; word(c); continue; }
      if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; c.p++; if (c.p < c.e && *c.p == '=') { c.p += 2; while (*c.p != '"') c.p++; c.p++; } continue; }
      std::string w = word(c);
      if (w.empty()) throw Err("attribute parse at: " + std::string(c.p, std::min<size_t>(60, c.e - c.p)));
      if (w == "align" || w == "alignstack" || w == "addrspace") { ws(c); if (*c.p == '(') skipParens(c); else word(c); }
      else skipParens(c);
    }
  }
  static bool opndStart(Cur c) {
    ws(c);
    if (c.p >= c.e) return true;
    char ch = *c.p;
    if (ch == '%' || ch == '@' || isdigit((unsigned char)ch) || ch == '-' || ch == '{' || ch == '[' || ch == '<' || ch == '!') return true;
    if (ch == 'c' && c.p[1] == '"') return true;
    std::string w = peekWord(c);
    static const std::unordered_set<std::string> k = {"null", "true", "false", "undef", "poison", "zeroinitializer", "getelementptr", "inttoptr", "ptrtoint", "bitcast", "trunc", "add", "sub", "xor", "none", "blockaddress", "splat", "asm", "icmp", "select", "ptrtoaddr", "zext", "sext", "and", "shl"};
    return k.count(w) > 0;
  }

  // ---- constants ----
  static u128 parseInt(Cur &c) {
    ws(c);
    bool neg = false;
    if (*c.p == '-') { neg = true; c.p++; }
    u128 v = 0;
    while (c.p < c.e && isdigit((unsigned char)*c.p)) v = v * 10 + (unsigned)(*c.p++ - '0');
    return neg ? 0 - v : v;
  }
  u64 symAddr(const std::string &n) {
    auto g = globals.find(n);
    if (g != globals.end()) return g->second->addr;
    auto f = funcs.find(n);
    if (f != funcs.end()) return f->second->addr;
    auto a = aliases.find(n);
    if (a != aliases.end()) return symAddr(a->second);
    throw Err("unknown symbol @" + n);
  }
  Val mkc(unsigned w, u128 v) { v &= maskw(w); if (w > 64) return Val{X.konst(w, v), 0}; return cv((u64)v); }

  // constant of type t, appended as scalar leaves to out
  void constant(Cur &c, Type *t, std::vector<Val> &out) {
    ws(c);
    char ch = *c.p;
    if (ch == '@') { c.p++; std::string n = nameAfterSigil(c); out.push_back(cv(symAddr(n))); return; }
    if (isdigit((unsigned char)ch) || ch == '-') {
      if (t->k == T_FLOAT) { while (c.p < c.e && (identc(*c.p) || *c.p == '+')) c.p++; out.push_back(cv(0)); return; }
      out.push_back(mkc(t->w, parseInt(c)));
      return;
    }
    if (ch == 'c' && c.p[1] == '"') {
      c.p += 2;
      while (*c.p != '"') {
        if (*c.p == '\\') { char h[3] = {c.p[1], c.p[2], 0}; if (c.p[1] == '\\') { out.push_back(cv('\\')); c.p += 2; } else { out.push_back(cv(strtoul(h, nullptr, 16))); c.p += 3; } }
        else out.push_back(cv((unsigned char)*c.p++));
      }
      c.p++;
      return;
    }
    if (ch == '{' || ch == '[' || (ch == '<')) {
      bool pk = false;
      c.p++;
      if (ch == '<' && t->k == T_STRUCT) { expect(c, "{"); pk = true; }
      const char *close = ch == '{' || pk ? "}" : ch == '[' ? "]" : ">";
      if (!eat(c, close)) for (;;) { Type *et = type(c); constant(c, et, out); if (eat(c, close)) break; expect(c, ","); }
      if (pk) expect(c, ">");
      return;
    }
    std::string w = word(c);
    if (w == "null" || w == "false" || w == "zeroinitializer" || w == "undef" || w == "poison" || w == "none") {
      for (auto &l : Types::leaves(t)) out.push_back(mkc(l.first->w, 0));
      return;
    }
    if (w == "true") { out.push_back(cv(1)); return; }
    if (w == "splat") { expect(c, "("); Type *et = type(c); std::vector<Val> v; constant(c, et, v); expect(c, ")"); for (u64 i = 0; i < t->n; i++) out.push_back(v[0]); return; }
    if (w == "getelementptr") {
      while (peekWord(c) == "inbounds" || peekWord(c) == "nuw" || peekWord(c) == "nusw" || peekWord(c) == "inrange") { word(c); skipInrange(c); }
      expect(c, "(");
      Type *bt = type(c); expect(c, ",");
      Type *pt = type(c); std::vector<Val> b; constant(c, pt, b);
      u64 a = b[0].c; bool first = true; Type *cur = bt;
      while (eat(c, ",")) {
        Type *it = type(c); std::vector<Val> v; constant(c, it, v);
        u64 i = (u64)sx(v[0].c, it->w);
        if (first) { a += i * cur->size; first = false; }
        else if (cur->k == T_STRUCT) { a += cur->off[i]; cur = cur->f[i]; }
        else { cur = cur->el; a += i * cur->size; }
      }
      expect(c, ")");
      out.push_back(cv(a));
      return;
    }
    if (w == "inttoptr" || w == "ptrtoint" || w == "bitcast" || w == "trunc" || w == "ptrtoaddr" || w == "zext" || w == "sext") {
      expect(c, "("); Type *st = type(c); std::vector<Val> v; constant(c, st, v);
      if (!eatWord(c, "to")) throw Err("const cast");
      Type *dt = type(c); expect(c, ")");
      u64 x = v[0].c;
      if (w == "sext") x = (u64)sx(x, st->w);
      out.push_back(mkc(dt->w, x));
      return;
    }
    if (w == "add" || w == "sub" || w == "xor" || w == "and" || w == "shl") {
      while (peekWord(c) == "nuw" || peekWord(c) == "nsw") word(c);
      expect(c, "("); Type *t1 = type(c); std::vector<Val> a, b; constant(c, t1, a); expect(c, ","); Type *t2 = type(c); constant(c, t2, b); expect(c, ")");
      u64 r = w == "add" ? a[0].c + b[0].c : w == "sub" ? a[0].c - b[0].c : w == "xor" ? (a[0].c ^ b[0].c) : w == "and" ? (a[0].c & b[0].c) : a[0].c << b[0].c;
      out.push_back(mkc(t1->w, r));
      return;
    }
    throw Err("constant '" + w + "'");
  }
  static void skipInrange(Cur &c) { ws(c); if (c.p < c.e && *c.p == '(') { Cur d = c; d.p++; ws(d); if (*d.p == '-' || isdigit((unsigned char)*d.p)) skipParens(c); } }

  // ---- module scan ----
  void load(const char *path) {
    int fd = open(path, O_RDONLY);
    if (fd < 0) throw Err(std::string("cannot open ") + path);
    struct stat st; fstat(fd, &st);
    len = st.st_size;
    buf = (char *)malloc(len + 16);
    size_t got = 0;
    while (got < len) { ssize_t r = read(fd, buf + got, len - got); if (r <= 0) throw Err("read"); got += r; }
    close(fd);
    memset(buf + len, 0, 16);
    for (char *p = buf, *e = buf + len; p < e;) {
      char *q = (char *)memchr(p, '\n', e - p);
      if (!q) q = e;
      lines.push_back({p, q});
      p = q + 1;
    }
    // Readable names, recorded before optimization dropped them.
    std::map<std::string, std::string> readable;
    if (FILE *nf = fopen((std::string(path) + ".names").c_str(), "r")) {
      char *ln = nullptr; size_t cap = 0; ssize_t n;
      while ((n = getline(&ln, &cap, nf)) > 0) { if (ln[n - 1] == '\n') ln[n - 1] = 0; char *t = strchr(ln, '\t'); if (t) { *t = 0; readable[ln] = t + 1; } }
      free(ln); fclose(nf);
    }
    std::string pretty;
    for (size_t i = 0; i < lines.size(); i++) {
      const char *p = lines[i].first, *e = lines[i].second;
      if (p == e) { pretty.clear(); continue; }
      if (*p == ';') { if (strncmp(p, "; Function Attrs", 16)) pretty = std::string(p + 2, e); continue; }
      Cur c{p, e};
      if (*p == '%') {
        c.p++; std::string n = nameAfterSigil(c); expect(c, "="); if (!eatWord(c, "type")) continue;
        if (eatWord(c, "opaque")) continue;
        named[n] = type(c);
      } else if (*p == '@') {
        c.p++; std::string n = nameAfterSigil(c); expect(c, "=");
        auto *g = new GlobalVar; g->name = n;
        bool found = false, alias = false;
        while (c.p < c.e) { std::string w = word(c); if (w == "extern_weak") g->weak = true; if (w == "alias" || w == "ifunc") { alias = true; break; } if (w == "global" || w == "constant") { g->isConst = w == "constant"; found = true; break; } skipParens(c); if (w.empty()) break; }
        if (alias) { type(c); expect(c, ","); type(c); ws(c); if (*c.p == '@') { c.p++; aliases[n] = nameAfterSigil(c); } delete g; continue; }
        if (!found) { delete g; continue; }
        g->ty = type(c);
        g->size = g->ty->size;
        ws(c);
        g->init = std::string(c.p, c.e);
        g->addr = g->weak ? 0 : take(g->size);
        globals[n] = g; gorder.push_back(g);
      } else if (!strncmp(p, "define ", 7) || !strncmp(p, "declare ", 8)) {
        bool def = *p == 'd' && p[2] == 'f';
        const char *at = p;
        while (at < e && *at != '@') at++;
        Cur d{at + 1, e};
        auto *f = new Function;
        f->name = nameAfterSigil(d);
        f->pretty = pretty.empty() ? f->name : pretty;
        { auto r = readable.find(f->name); if (r != readable.end()) f->pretty = r->second; }
        f->isDecl = !def;
        f->weak = !def && std::string(p, at).find("extern_weak") != std::string::npos;
        f->lineBegin = i;
        if (def) { while (i < lines.size() && !(lines[i].first < lines[i].second && *lines[i].first == '}')) i++; }
        f->lineEnd = i;
        if (f->weak) f->addr = 0; else { f->addr = take(1); byAddr[f->addr] = f; }
        f->isPanic = f->name.find("_4core9panicking") != std::string::npos || f->name.find("rust_begin_unwind") != std::string::npos ||
                     f->name.find("_3std9panicking11begin_panic") != std::string::npos;
        f->isAllocErr = f->name.find("18handle_alloc_error") != std::string::npos || f->name.find("rg_oom") != std::string::npos;
        funcs[f->name] = f;
        pretty.clear();
      } else pretty.clear();
    }
  }
  std::vector<uint8_t> initBytes(GlobalVar *g) {
    std::vector<uint8_t> b(g->size, 0);
    if (g->init.empty() || g->init[0] == ',') return b;
    Cur c{g->init.data(), g->init.data() + g->init.size()};
    if (peekWord(c) == "zeroinitializer" || peekWord(c) == "undef" || peekWord(c) == "poison") return b;
    std::vector<Val> v;
    constant(c, g->ty, v);
    auto &lv = Types::leaves(g->ty);
    if (lv.size() != v.size()) throw Err("initializer of @" + g->name);
    for (size_t i = 0; i < lv.size(); i++) {
      u128 x = v[i].e ? v[i].e->val : v[i].c;
      unsigned nb = (lv[i].first->w + 7) / 8;
      for (unsigned k = 0; k < nb; k++) b[lv[i].second + k] = (uint8_t)(x >> (8 * k));
    }
    return b;
  }

  // ---- functions ----
  struct FnCtx { Function *f; std::unordered_map<std::string, std::pair<int, Type *>> names; std::unordered_map<std::string, int> blocks; };
  int newSlots(Function *f, Type *t) { int s = f->nslots; f->nslots += (int)Types::leaves(t).size(); return s; }

  Opnd operand(FnCtx &x, Cur &c, Type *t) {
    ws(c);
    Opnd o;
    o.n = (unsigned)Types::leaves(t).size();
    if (*c.p == '%') {
      c.p++;
      std::string n = nameAfterSigil(c);
      auto it = x.names.find(n);
      if (it == x.names.end()) {  // forward reference (phi): allocate
        int s = newSlots(x.f, t);
        x.names[n] = {s, t};
        o.slot = s;
      } else o.slot = it->second.first;
      return o;
    }
    std::vector<Val> v;
    constant(c, t, v);
    if (v.size() == 1) o.c = v[0];
    else o.cs = new std::vector<Val>(v);
    if (v.size() != o.n) throw Err("operand arity");
    return o;
  }
  Opnd typed(FnCtx &x, Cur &c, Type **tp = nullptr) {
    Type *t = type(c);
    skipAttrs(c, opndStart);
    if (tp) *tp = t;
    return operand(x, c, t);
  }
  int blockRef(FnCtx &x, Cur &c) {
    ws(c);
    if (*c.p != '%') throw Err("label expected");
    c.p++;
    std::string n = nameAfterSigil(c);
    auto it = x.blocks.find(n);
    if (it == x.blocks.end()) throw Err("unknown block " + n);
    return it->second;
  }
  int label(FnCtx &x, Cur &c) { if (!eatWord(c, "label")) throw Err("label expected"); return blockRef(x, c); }
  int define(FnCtx &x, const std::string &n, Type *t) {
    auto it = x.names.find(n);
    if (it != x.names.end()) return it->second.first;
    int s = newSlots(x.f, t);
    x.names[n] = {s, t};
    return s;
  }

  void compile(Function *f) {
    if (f->compiled) return;
    f->compiled = true;
    FnCtx x; x.f = f;
    const char *p = lines[f->lineBegin].first, *e = lines[f->lineBegin].second;
    Cur c{p, e};
    word(c);
    skipAttrs(c, [&](Cur d) { return typeStart(d); });
    f->ret = type(c);
    while (*c.p != '@') c.p++;
    c.p++; nameAfterSigil(c);
    expect(c, "(");
    int unnamed = 0;
    if (!eat(c, ")")) for (;;) {
      if (eat(c, "...")) { expect(c, ")"); break; }
      Type *t = type(c);
      Cur save = c;
      std::string n;
      // attributes then %name
      skipAttrs(c, [&](Cur d) { ws(d); return *d.p == '%' || *d.p == ',' || *d.p == ')'; });
      (void)save;
      if (*c.p == '%') { c.p++; n = nameAfterSigil(c); if (isdigit((unsigned char)n[0])) unnamed++; }
      f->pty.push_back(t);
      f->pslot.push_back(define(x, n, t));
      if (eat(c, ")")) break;
      expect(c, ",");
    }
    if (f->isDecl) return;
    // collect blocks
    size_t first = f->lineBegin + 1;
    std::vector<std::pair<size_t, size_t>> ranges;
    auto isLabel = [&](size_t i, std::string &nm) {
      const char *q = lines[i].first, *r = lines[i].second;
      if (q == r || *q == ' ' || *q == ';' || *q == '}') return false;
      Cur d{q, r};
      nm = nameAfterSigil(d);
      return d.p < r && *d.p == ':';
    };
    std::string nm;
    size_t i = first;
    while (i < f->lineEnd && lines[i].first == lines[i].second) i++;
    if (!isLabel(i, nm)) { x.blocks[std::to_string(unnamed)] = 0; ranges.push_back({i, i}); }
    for (; i < f->lineEnd; i++)
      if (isLabel(i, nm)) { if (!ranges.empty()) ranges.back().second = i; x.blocks[nm] = (int)ranges.size(); ranges.push_back({i + 1, i + 1}); }
    ranges.back().second = f->lineEnd;
    f->blocks.resize(ranges.size());
    for (size_t b = 0; b < ranges.size(); b++) {
      for (size_t l = ranges[b].first; l < ranges[b].second; l++) {
        const char *q = lines[l].first, *r = lines[l].second;
        while (q < r && *q == ' ') q++;
        if (q == r || *q == ';') continue;
        std::string joined;
        Cur d{q, r};
        // continuation lines
        std::string txt(q, r);
        bool sw = txt.compare(0, 7, "switch ") == 0;
        if (sw && txt.back() == '[') {
          joined = txt;
          for (l++; l < ranges[b].second; l++) { joined += ' '; joined += std::string(lines[l].first, lines[l].second); const char *z = lines[l].first; while (*z == ' ') z++; if (*z == ']') break; }
        } else if (txt.compare(0, 7, "invoke ") == 0 || txt.find(" = invoke ") != std::string::npos) {
          joined = txt; l++; joined += std::string(lines[l].first, lines[l].second);
        } else if (txt.find(" = landingpad ") != std::string::npos) {
          while (l + 1 < ranges[b].second) { const char *z = lines[l + 1].first, *ze = lines[l + 1].second; while (z < ze && *z == ' ') z++; std::string wz = peekWord(Cur{z, ze}); if (wz == "cleanup" || wz == "catch" || wz == "filter") l++; else break; }
        }
        if (!joined.empty()) { char *keep = strdup(joined.c_str()); d = Cur{keep, keep + joined.size()}; }
        try { instruction(x, f->blocks[b], d); }
        catch (Err &er) {
          Ins in; in.op = O_UNSUPPORTED; in.text = std::string(er.what()) + " in: " + std::string(d.p - (d.p - q > 0 && joined.empty() ? d.p - q : 0), d.e).substr(0, 160);
          // keep result name defined as one slot so later text parses
          f->blocks[b].ins.push_back(in);
        }
      }
    }
  }

  static int binop(const std::string &w) {
    static const std::map<std::string, int> m = {{"add", E_ADD}, {"sub", E_SUB}, {"mul", E_MUL}, {"udiv", E_UDIV}, {"sdiv", E_SDIV}, {"urem", E_UREM}, {"srem", E_SREM}, {"and", E_AND}, {"or", E_OR}, {"xor", E_XOR}, {"shl", E_SHL}, {"lshr", E_LSHR}, {"ashr", E_ASHR}};
    auto it = m.find(w);
    return it == m.end() ? -1 : it->second;
  }

  void instruction(FnCtx &x, Block &b, Cur &c) {
    std::string dst;
    bool has = false;
    ws(c);
    const char *lineStart = c.p;
    if (*c.p == '%') { c.p++; dst = nameAfterSigil(c); expect(c, "="); has = true; }
    std::string w = word(c);
    Ins in;
    auto def = [&](Type *t) { in.ty = t; if (has && t->k != T_VOID) in.dst = define(x, dst, t); };
    int bo = binop(w);
    if (bo >= 0) {
      while (peekWord(c) == "nuw" || peekWord(c) == "nsw" || peekWord(c) == "exact" || peekWord(c) == "disjoint") word(c);
      Type *t = type(c);
      in.op = O_BIN; in.sub = (uint8_t)bo;
      in.o.push_back(operand(x, c, t)); expect(c, ","); in.o.push_back(operand(x, c, t));
      def(t); in.ty2 = t->k == T_VEC ? t->el : t;
    } else if (w == "icmp") {
      eatWord(c, "samesign");
      std::string p = word(c);
      static const std::map<std::string, int> pm = {{"eq", P_EQ}, {"ne", P_NE}, {"ugt", P_UGT}, {"uge", P_UGE}, {"ult", P_ULT}, {"ule", P_ULE}, {"sgt", P_SGT}, {"sge", P_SGE}, {"slt", P_SLT}, {"sle", P_SLE}};
      in.op = O_ICMP; in.sub = (uint8_t)pm.at(p);
      Type *t = type(c);
      in.o.push_back(operand(x, c, t)); expect(c, ","); in.o.push_back(operand(x, c, t));
      in.ty2 = t->k == T_VEC ? t->el : t;
      Type *rt = T.integer(1);
      if (t->k == T_VEC) { Type v; v.k = T_VEC; v.n = t->n; v.el = rt; rt = T.mk("<" + std::to_string(t->n) + "x" + std::to_string((u64)rt) + ">", v); }
      def(rt);
    } else if (w == "alloca") {
      in.op = O_ALLOCA;
      Type *t = type(c); u64 al = t->align; bool dyn = false;
      while (eat(c, ",")) { if (eatWord(c, "align")) al = (u64)parseInt(c); else { ws(c); if (*c.p == '!') break; Type *nt; Opnd o = typed(x, c, &nt); if (o.slot >= 0) { dyn = true; in.o.push_back(o); in.imm = t->size; } else { in.imm = t->size * o.c.c; } } }
      if (!in.imm) in.imm = t->size;
      def(T.ptr());
      if (!dyn) {
        u64 off = (x.f->frameSize + al - 1) / al * al;
        x.f->frameSize = off + std::max<u64>(in.imm, 1);
        in.sub = 0; in.cases.push_back(off);
      } else in.sub = 1;
    } else if (w == "load") {
      in.op = O_LOAD;
      eatWord(c, "atomic"); eatWord(c, "volatile");
      Type *t = type(c); expect(c, ",");
      in.o.push_back(typed(x, c));
      def(t);
    } else if (w == "store") {
      in.op = O_STORE;
      eatWord(c, "atomic"); eatWord(c, "volatile");
      Type *t; in.o.push_back(typed(x, c, &t)); in.ty2 = t; expect(c, ",");
      in.o.push_back(typed(x, c));
    } else if (w == "getelementptr") {
      in.op = O_GEP;
      while (peekWord(c) == "inbounds" || peekWord(c) == "nuw" || peekWord(c) == "nusw" || peekWord(c) == "inrange") { word(c); skipInrange(c); }
      Type *bt = type(c); expect(c, ",");
      in.o.push_back(typed(x, c));
      bool first = true; Type *cur = bt; u64 k = 0;
      while (eat(c, ",")) {
        ws(c); if (*c.p == '!') break;
        Type *it; Opnd o = typed(x, c, &it);
        u64 scale;
        if (first) { scale = cur->size; first = false; }
        else if (cur->k == T_STRUCT) { k += cur->off[o.c.c]; cur = cur->f[o.c.c]; continue; }
        else { cur = cur->el; scale = cur->size; }
        if (o.slot < 0) k += (u64)sx(o.c.c, it->w) * scale;
        else { in.o.push_back(o); in.sc.push_back({scale, it->w}); }
      }
      in.imm = k;
      def(T.ptr());
    } else if (w == "br") {
      if (peekWord(c) == "label") { in.op = O_BR; in.aux.push_back(label(x, c)); }
      else { in.op = O_CONDBR; in.o.push_back(typed(x, c)); expect(c, ","); in.aux.push_back(label(x, c)); expect(c, ","); in.aux.push_back(label(x, c)); }
    } else if (w == "switch") {
      in.op = O_SWITCH;
      Type *t; in.o.push_back(typed(x, c, &t)); in.ty2 = t; expect(c, ","); in.aux.push_back(label(x, c)); expect(c, "[");
      while (!eat(c, "]")) { Type *ct = type(c); in.cases.push_back(parseInt(c) & maskw(ct->w)); expect(c, ","); in.aux.push_back(label(x, c)); }
    } else if (w == "ret") {
      in.op = O_RET;
      Type *t = type(c); in.ty2 = t;
      if (t->k != T_VOID) in.o.push_back(operand(x, c, t));
    } else if (w == "unreachable" || w == "resume") {
      in.op = O_UNREACHABLE;
    } else if (w == "landingpad") {
      Type *t = type(c); def(t); in.op = O_UNSUPPORTED; in.text = "landingpad";
    } else if (w == "phi") {
      Type *t = type(c);
      Phi ph; ph.n = (unsigned)Types::leaves(t).size();
      for (;;) { expect(c, "["); Opnd o = operand(x, c, t); expect(c, ","); int bl = blockRef(x, c); expect(c, "]"); ph.in.push_back({bl, o}); if (!eat(c, ",")) break; ws(c); if (*c.p == '!') break; }
      ph.dst = define(x, dst, t);
      b.phis.push_back(ph);
      return;
    } else if (w == "select") {
      in.op = O_SELECT;
      Type *ct; in.o.push_back(typed(x, c, &ct)); expect(c, ","); Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c));
      in.ty2 = ct;
      def(t);
    } else if (w == "trunc" || w == "zext" || w == "sext" || w == "ptrtoint" || w == "inttoptr" || w == "ptrtoaddr" || w == "addrspacecast") {
      while (peekWord(c) == "nuw" || peekWord(c) == "nsw" || peekWord(c) == "nneg") word(c);
      in.op = O_CAST;
      Type *st; in.o.push_back(typed(x, c, &st)); if (!eatWord(c, "to")) throw Err("cast");
      Type *dt = type(c);
      in.sub = w == "trunc" ? C_TRUNC : w == "zext" ? C_ZEXT : w == "sext" ? C_SEXT : C_PTR;
      in.ty2 = st; def(dt);
    } else if (w == "bitcast") {
      in.op = O_BITCAST;
      Type *st; in.o.push_back(typed(x, c, &st)); if (!eatWord(c, "to")) throw Err("cast");
      Type *dt = type(c); in.ty2 = st; def(dt);
    } else if (w == "freeze") {
      in.op = O_COPY; Type *t; in.o.push_back(typed(x, c, &t)); def(t);
    } else if (w == "extractvalue") {
      in.op = O_EXTRACTVALUE;
      Type *t; in.o.push_back(typed(x, c, &t));
      u64 lo = 0; Type *cur = t;
      while (eat(c, ",")) { ws(c); if (*c.p == '!') break; u64 i = (u64)parseInt(c); if (cur->k == T_STRUCT) { for (u64 k = 0; k < i; k++) lo += Types::leaves(cur->f[k]).size(); cur = cur->f[i]; } else { lo += i * Types::leaves(cur->el).size(); cur = cur->el; } }
      in.imm = lo; def(cur);
    } else if (w == "insertvalue") {
      in.op = O_INSERTVALUE;
      Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c));
      u64 lo = 0; Type *cur = t;
      while (eat(c, ",")) { ws(c); if (*c.p == '!') break; u64 i = (u64)parseInt(c); if (cur->k == T_STRUCT) { for (u64 k = 0; k < i; k++) lo += Types::leaves(cur->f[k]).size(); cur = cur->f[i]; } else { lo += i * Types::leaves(cur->el).size(); cur = cur->el; } }
      in.imm = lo; def(t);
    } else if (w == "extractelement") {
      in.op = O_EXTRACTELEMENT;
      Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c)); def(t->el);
    } else if (w == "insertelement") {
      in.op = O_INSERTELEMENT;
      Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c)); expect(c, ","); in.o.push_back(typed(x, c)); def(t);
    } else if (w == "shufflevector") {
      in.op = O_SHUFFLE;
      Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c)); expect(c, ",");
      Type *mt; in.o.push_back(typed(x, c, &mt));
      Type v; v.k = T_VEC; v.n = mt->n; v.el = t->el;
      in.imm = t->n;
      def(T.mk("<" + std::to_string(mt->n) + "x" + std::to_string((u64)t->el) + ">", v));
    } else if (w == "atomicrmw") {
      in.op = O_ATOMICRMW;
      eatWord(c, "volatile");
      std::string k = word(c);
      static const std::map<std::string, int> km = {{"xchg", 0}, {"add", 1}, {"sub", 2}, {"and", 3}, {"or", 4}, {"xor", 5}, {"umax", 6}, {"umin", 7}};
      in.sub = (uint8_t)km.at(k);
      in.o.push_back(typed(x, c)); expect(c, ","); Type *t; in.o.push_back(typed(x, c, &t)); def(t); in.ty = t;
    } else if (w == "cmpxchg") {
      in.op = O_CMPXCHG;
      eatWord(c, "weak"); eatWord(c, "volatile");
      in.o.push_back(typed(x, c)); expect(c, ","); Type *t; in.o.push_back(typed(x, c, &t)); expect(c, ","); in.o.push_back(typed(x, c));
      in.ty2 = t;
      Type s; s.k = T_STRUCT; s.f = {t, T.integer(1)};
      def(T.mk("{" + std::to_string((u64)t) + "," + std::to_string((u64)T.integer(1)) + ",}", s));
    } else if (w == "fence") {
      return;
    } else if (w == "call" || w == "tail" || w == "invoke" || w == "musttail" || w == "notail") {
      bool inv = w == "invoke";
      if (w == "tail" || w == "musttail" || w == "notail") word(c);
      in.op = O_CALL;
      skipAttrs(c, [&](Cur d) { return typeStart(d); });
      Type *rt = type(c);
      ws(c);
      if (*c.p == '(') skipParens(c);  // vararg function type
      ws(c);
      bool isAsm = false;
      if (*c.p == '@') {
        c.p++; std::string n = nameAfterSigil(c);
        auto it = funcs.find(n);
        if (it == funcs.end()) { auto a = aliases.find(n); if (a != aliases.end()) it = funcs.find(a->second); }
        if (it == funcs.end()) throw Err("unknown function @" + n);
        in.callee = it->second;
      } else if (*c.p == '%') { in.o.push_back(operand(x, c, T.ptr())); }
      else if (peekWord(c) == "asm") { isAsm = true; while (*c.p != '(') { if (*c.p == '"') { c.p++; while (*c.p != '"') c.p++; } c.p++; } }
      else { std::vector<Val> v; constant(c, T.ptr(), v); Opnd o; o.c = v[0]; in.o.push_back(o); }
      if (!in.callee && !isAsm && in.o.empty()) throw Err("callee");
      expect(c, "(");
      if (!eat(c, ")")) for (;;) {
        Type *t = type(c);
        if (t->k == T_META) { int d = 0; while (c.p < c.e && !(d == 0 && (*c.p == ',' || *c.p == ')'))) { if (*c.p == '(') d++; if (*c.p == ')') d--; c.p++; } }
        else { skipAttrs(c, opndStart); in.o.push_back(operand(x, c, t)); in.aty.push_back(t); }
        if (eat(c, ")")) break;
        expect(c, ",");
      }
      def(rt);
      if (inv) {
        const char *q = c.p; std::string rest(q, c.e);
        size_t k = rest.find("to label ");
        if (k == std::string::npos) throw Err("invoke");
        Cur d{q + k + 3, c.e};
        in.aux.push_back(label(x, d));
      }
      if (isAsm) { in.callee = nullptr; in.sub = 1; }
      if (in.callee && in.callee->name.compare(0, 5, "llvm.") == 0) {
        const std::string &n = in.callee->name;
        if (n.find("llvm.lifetime") == 0 || n.find("llvm.assume") == 0 || n.find("llvm.experimental.noalias") == 0 || n.find("llvm.dbg") == 0 || n.find("llvm.x86.sse2.pause") == 0 || n.find("llvm.donothing") == 0 || n.find("llvm.prefetch") == 0) return;
      }
    } else {
      throw Err("instruction '" + w + "'");
    }
    (void)lineStart;
    b.ins.push_back(in);
  }
};
