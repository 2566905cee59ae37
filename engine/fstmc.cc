// Explicit-state exploration of finite-state transducers, for all input strings.
//
// A transducer is loaded from the binary file the build makes (or from arrays),
// and every reachable state of a product machine is visited:
//   mc_agree   pairs (p, q) of two transducers reading the same input, with the
//              outstanding output (delay) of one against the other.  Decides, for
//              every string of both domains, that all outputs of the one equal
//              all outputs of the other; with a == b, that it is a function.
//   mc_incl    pairs (p, S) with S a set of states: domain inclusion.
//   mc_best    weighted subset construction of both machines in lockstep
//              (states: sets of (state, weight, pending output)): decides that the
//              cheapest outputs agree and are unique, for every string.
// Built as a shared library and driven from Python (mc/engine.py).
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <limits>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <map>

namespace {

using std::vector;
const float INF = std::numeric_limits<float>::infinity();

struct Arc { int32_t i, o; float w; int32_t n; };

struct Fst {
  int32_t start = -1;
  vector<float> fin;
  vector<uint64_t> off;  // size n+1
  vector<Arc> arcs;      // sorted by (i, o, n) within a state
  int32_t n() const { return (int32_t)fin.size(); }
  void from_lists(vector<vector<Arc>>& a) {
    off.assign(1, 0);
    arcs.clear();
    for (auto& v : a) {
      std::sort(v.begin(), v.end(), [](const Arc& x, const Arc& y) {
        if (x.i != y.i) return x.i < y.i;
        if (x.o != y.o) return x.o < y.o;
        if (x.n != y.n) return x.n < y.n;
        return x.w < y.w;
      });
      arcs.insert(arcs.end(), v.begin(), v.end());
      off.push_back(arcs.size());
    }
  }
  const Arc* begin(int32_t s) const { return arcs.data() + off[s]; }
  const Arc* end(int32_t s) const { return arcs.data() + off[s + 1]; }
};

vector<std::unique_ptr<Fst>> g_fsts;
std::mutex g_mu;

int add(std::unique_ptr<Fst> f) {
  std::lock_guard<std::mutex> l(g_mu);
  for (size_t i = 0; i < g_fsts.size(); ++i)
    if (!g_fsts[i]) { g_fsts[i] = std::move(f); return (int)i; }
  g_fsts.push_back(std::move(f));
  return (int)g_fsts.size() - 1;
}
Fst* get(int h) {
  std::lock_guard<std::mutex> l(g_mu);
  return g_fsts[h].get();
}

int utf8(int32_t c, unsigned char* b) {
  if (c < 0x80) { b[0] = c; return 1; }
  if (c < 0x800) { b[0] = 0xC0 | c >> 6; b[1] = 0x80 | (c & 63); return 2; }
  if (c < 0x10000) {
    b[0] = 0xE0 | c >> 12; b[1] = 0x80 | (c >> 6 & 63); b[2] = 0x80 | (c & 63);
    return 3;
  }
  b[0] = 0xF0 | c >> 18; b[1] = 0x80 | (c >> 12 & 63);
  b[2] = 0x80 | (c >> 6 & 63); b[3] = 0x80 | (c & 63);
  return 4;
}

// Replaces code point labels by their UTF-8 bytes.
void expand_utf8(int32_t& start, vector<float>& fin, vector<vector<Arc>>& a) {
  // Share the expansion of input prefixes where output is one label at the end is
  // not needed: chains only.
  size_t n0 = a.size();
  for (size_t s = 0; s < n0; ++s) {
    vector<Arc> old;
    old.swap(a[s]);
    for (auto& x : old) {
      unsigned char bi[4], bo[4];
      int ni = x.i ? utf8(x.i, bi) : 0, no = x.o ? utf8(x.o, bo) : 0;
      int m = std::max(1, std::max(ni, no));
      size_t cur = s;
      for (int k = 0; k < m; ++k) {
        size_t nxt = x.n;
        if (k + 1 < m) {
          nxt = a.size();
          a.emplace_back();
          fin.push_back(INF);
        }
        a[cur].push_back({k < ni ? bi[k] : 0, k < no ? bo[k] : 0,
                          k == 0 ? x.w : 0.f, (int32_t)nxt});
        cur = nxt;
      }
    }
  }
}

// Keeps the states that lie on a path from the start to a final state.
void trim(int32_t& start, vector<float>& fin, vector<vector<Arc>>& a) {
  size_t n = a.size();
  vector<char> f(n, 0), b(n, 0);
  if (start < 0) { a.clear(); fin.clear(); return; }
  vector<int32_t> st{start};
  f[start] = 1;
  vector<uint32_t> cnt(n + 1, 0);
  while (!st.empty()) {
    int32_t s = st.back(); st.pop_back();
    for (auto& x : a[s]) { if (!f[x.n]) { f[x.n] = 1; st.push_back(x.n); } }
  }
  for (size_t s = 0; s < n; ++s) if (f[s]) for (auto& x : a[s]) ++cnt[x.n + 1];
  for (size_t s = 0; s < n; ++s) cnt[s + 1] += cnt[s];
  vector<uint32_t> rev(cnt[n]), pos(cnt.begin(), cnt.end() - 1);
  for (size_t s = 0; s < n; ++s) if (f[s]) for (auto& x : a[s]) rev[pos[x.n]++] = s;
  for (size_t s = 0; s < n; ++s) if (f[s] && fin[s] != INF) { b[s] = 1; st.push_back(s); }
  while (!st.empty()) {
    int32_t s = st.back(); st.pop_back();
    for (uint32_t k = cnt[s]; k < cnt[s + 1]; ++k)
      if (!b[rev[k]]) { b[rev[k]] = 1; st.push_back(rev[k]); }
  }
  vector<int32_t> id(n, -1);
  int32_t m = 0;
  for (size_t s = 0; s < n; ++s) if (f[s] && b[s]) id[s] = m++;
  vector<vector<Arc>> na(m);
  vector<float> nf(m);
  for (size_t s = 0; s < n; ++s) {
    if (id[s] < 0) continue;
    nf[id[s]] = fin[s];
    for (auto& x : a[s]) if (id[x.n] >= 0) { x.n = id[x.n]; na[id[s]].push_back(x); }
    vector<Arc>().swap(a[s]);
  }
  start = id[start];
  a.swap(na);
  fin.swap(nf);
}

struct Reader {
  const char* p; const char* e; const char* base; bool ok = true;
  template <class T> T get() {
    T v{};
    if (p + sizeof(T) > e) { ok = false; return v; }
    memcpy(&v, p, sizeof(T)); p += sizeof(T); return v;
  }
  std::string str() {
    int32_t n = get<int32_t>();
    if (n < 0 || p + n > e) { ok = false; return ""; }
    std::string s(p, n); p += n; return s;
  }
};

bool read_symtab(Reader& r) {  // skips a symbol table
  int32_t magic = r.get<int32_t>();
  if (magic != 2125658996) return false;
  r.str();
  r.get<int64_t>();
  int64_t n = r.get<int64_t>();
  for (int64_t i = 0; i < n && r.ok; ++i) { r.str(); r.get<int64_t>(); }
  return r.ok;
}

// Finds the FST in a plain file, or in an STTable/STList archive at `at`.
int load_from(const char* buf, size_t size, size_t at, bool expand) {
  Reader r{buf + at, buf + size, buf + at};
  if (r.get<int32_t>() != 2125659606) return -2;
  std::string type = r.str(), arct = r.str();
  if (arct != "standard") return -3;
  r.get<int32_t>();  // version
  int32_t flags = r.get<int32_t>();
  r.get<uint64_t>();
  int64_t start = r.get<int64_t>(), ns = r.get<int64_t>(), na = r.get<int64_t>();
  if (flags & 1) if (!read_symtab(r)) return -4;
  if (flags & 2) if (!read_symtab(r)) return -4;
  int32_t st = (int32_t)start;
  vector<float> fin;
  vector<vector<Arc>> a;
  if (type == "const") {
    auto align = [&]() { size_t o = r.p - r.base; if (flags & 4) { o = (o + 15) / 16 * 16; r.p = r.base + o; } };
    align();
    const char* sp = r.p;
    r.p += ns * 20;
    align();
    const char* ap = r.p;
    if (ap + na * 16 > r.e) return -5;
    fin.resize(ns); a.resize(ns);
    for (int64_t s = 0; s < ns; ++s) {
      float w; uint32_t pos, n;
      memcpy(&w, sp + s * 20, 4); memcpy(&pos, sp + s * 20 + 4, 4); memcpy(&n, sp + s * 20 + 8, 4);
      fin[s] = w;
      a[s].resize(n);
      for (uint32_t k = 0; k < n; ++k) {
        const char* q = ap + (uint64_t)(pos + k) * 16;
        Arc& x = a[s][k];
        memcpy(&x.i, q, 4); memcpy(&x.o, q + 4, 4); memcpy(&x.w, q + 8, 4); memcpy(&x.n, q + 12, 4);
      }
    }
  } else if (type == "vector") {
    // ns may be -1 (unknown): then read to the end.
    for (int64_t s = 0; ns < 0 || s < ns; ++s) {
      float w = r.get<float>();
      if (!r.ok) { if (ns < 0) break; return -6; }
      int64_t n = r.get<int64_t>();
      fin.push_back(w);
      a.emplace_back();
      for (int64_t k = 0; k < n; ++k) {
        Arc x; x.i = r.get<int32_t>(); x.o = r.get<int32_t>(); x.w = r.get<float>(); x.n = r.get<int32_t>();
        if (!r.ok) return -6;
        a.back().push_back(x);
      }
    }
  } else {
    return -7;
  }
  trim(st, fin, a);
  if (expand) expand_utf8(st, fin, a);
  auto f = std::make_unique<Fst>();
  f->start = st; f->fin = fin;
  f->from_lists(a);
  return add(std::move(f));
}

struct Result {
  int32_t verdict;       // 0 holds, 1 violated, 2 cap reached
  uint64_t states, transitions;
  int32_t n1, n2;        // lengths of the candidate witnesses (inputs)
  int32_t w1[4096], w2[4096];
  int32_t kind;          // what failed
  uint64_t maxdelay;
};

void put(Result* r, int which, const vector<int32_t>& v) {
  int n = std::min<size_t>(v.size(), 4096);
  (which == 1 ? r->n1 : r->n2) = n;
  memcpy(which == 1 ? r->w1 : r->w2, v.data(), n * 4);
}

struct Interner {
  std::unordered_map<std::u32string, uint32_t> ids;
  vector<const std::u32string*> v;
  uint32_t operator()(const std::u32string& s) {
    auto [it, isnew] = ids.emplace(s, (uint32_t)v.size());
    if (isnew) v.push_back(&it->first);
    return it->second;
  }
};

// Open-addressing map from 64-bit keys to dense ids.
struct PairMap {
  vector<uint64_t> keys; vector<uint32_t> val; size_t n = 0, mask;
  PairMap() : keys(1 << 16, ~0ull), val(1 << 16), mask((1 << 16) - 1) {}
  static uint64_t h(uint64_t x) {
    x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull;
    return x ^ x >> 33;
  }
  void grow() {
    vector<uint64_t> k2((mask + 1) * 2, ~0ull); vector<uint32_t> v2((mask + 1) * 2);
    size_t m2 = k2.size() - 1;
    for (size_t i = 0; i <= mask; ++i) if (keys[i] != ~0ull) {
      size_t j = h(keys[i]) & m2;
      while (k2[j] != ~0ull) j = (j + 1) & m2;
      k2[j] = keys[i]; v2[j] = val[i];
    }
    keys.swap(k2); val.swap(v2); mask = m2;
  }
  uint32_t find_or_add(uint64_t k, uint32_t fresh, bool* isnew) {
    if (n * 10 > (mask + 1) * 6) grow();
    size_t j = h(k) & mask;
    while (keys[j] != ~0ull) {
      if (keys[j] == k) { *isnew = false; return val[j]; }
      j = (j + 1) & mask;
    }
    keys[j] = k; val[j] = fresh; ++n; *isnew = true;
    return fresh;
  }
};

// Delay: positive side = A's output is ahead, negative = B's.
struct Delay { std::u32string s; bool a_ahead = true; };

// d := d extended by output oa of A and ob of B; false on contradiction.
bool extend(Delay& d, int32_t oa, int32_t ob) {
  if (oa) {
    if (d.s.empty() || d.a_ahead) { d.a_ahead = true; d.s.push_back(oa); }
    else { if ((int32_t)d.s[0] != oa) return false; d.s.erase(0, 1); }
  }
  if (ob) {
    if (d.s.empty() || !d.a_ahead) { d.a_ahead = false; d.s.push_back(ob); }
    else { if ((int32_t)d.s[0] != ob) return false; d.s.erase(0, 1); }
  }
  if (d.s.empty()) d.a_ahead = true;
  return true;
}

struct Edge { uint32_t from, to; int32_t i, oa, ob; };

void agree(const Fst& A, const Fst& B, uint64_t cap, Result* r) {
  memset(r, 0, sizeof(*r));
  if (A.start < 0 || B.start < 0) return;
  PairMap pm;
  vector<uint64_t> pairs;
  vector<Edge> edges;
  vector<uint64_t> eoff;
  bool isnew;
  auto key = [](int32_t p, int32_t q) { return (uint64_t)(uint32_t)p << 32 | (uint32_t)q; };
  pm.find_or_add(key(A.start, B.start), 0, &isnew);
  pairs.push_back(key(A.start, B.start));
  for (size_t k = 0; k < pairs.size(); ++k) {
    if (pairs.size() > cap || edges.size() > cap * 8) { r->verdict = 2; r->states = pairs.size(); r->transitions = edges.size(); return; }
    eoff.push_back(edges.size());
    int32_t p = pairs[k] >> 32, q = (int32_t)(pairs[k] & 0xffffffffu);
    auto go = [&](int32_t i, int32_t oa, int32_t ob, int32_t np, int32_t nq) {
      uint32_t id = pm.find_or_add(key(np, nq), (uint32_t)pairs.size(), &isnew);
      if (isnew) pairs.push_back(key(np, nq));
      edges.push_back({(uint32_t)k, id, i, oa, ob});
    };
    const Arc *x = A.begin(p), *xe = A.end(p), *y = B.begin(q), *ye = B.end(q);
    for (; x != xe && x->i == 0; ++x) go(0, x->o, 0, x->n, q);
    for (; y != ye && y->i == 0; ++y) go(0, 0, y->o, p, y->n);
    while (x != xe && y != ye) {
      if (x->i < y->i) { ++x; continue; }
      if (y->i < x->i) { ++y; continue; }
      int32_t lab = x->i;
      const Arc *x2 = x, *y2 = y;
      while (x2 != xe && x2->i == lab) ++x2;
      while (y2 != ye && y2->i == lab) ++y2;
      for (const Arc* u = x; u != x2; ++u) for (const Arc* v = y; v != y2; ++v) go(lab, u->o, v->o, u->n, v->n);
      x = x2; y = y2;
    }
  }
  eoff.push_back(edges.size());
  size_t N = pairs.size();
  r->states = N; r->transitions = edges.size();
  // Co-accessible pairs, with the edge that leads towards a final pair.
  vector<uint64_t> roff(N + 1, 0);
  for (auto& e : edges) ++roff[e.to + 1];
  for (size_t k = 0; k < N; ++k) roff[k + 1] += roff[k];
  vector<uint32_t> redge(edges.size());
  { vector<uint64_t> pos(roff.begin(), roff.end() - 1);
    for (size_t e = 0; e < edges.size(); ++e) redge[pos[edges[e].to]++] = e; }
  auto isfin = [&](size_t k) { return A.fin[pairs[k] >> 32] != INF && B.fin[pairs[k] & 0xffffffffu] != INF; };
  vector<int64_t> nxt(N, -2);
  vector<uint32_t> queue;
  for (size_t k = 0; k < N; ++k) if (isfin(k)) { nxt[k] = -1; queue.push_back(k); }
  for (size_t h = 0; h < queue.size(); ++h) {
    uint32_t k = queue[h];
    for (uint64_t j = roff[k]; j < roff[k + 1]; ++j) {
      uint32_t f = edges[redge[j]].from;
      if (nxt[f] == -2) { nxt[f] = redge[j]; queue.push_back(f); }
    }
  }
  if (nxt[0] == -2) return;
  vector<uint32_t>().swap(redge); vector<uint64_t>().swap(roff);
  Interner in;
  vector<int64_t> delay(N, -1), parent(N, -1);
  auto enc = [&](const Delay& d) { return (int64_t)in(d.s) * 2 + (d.s.empty() || d.a_ahead ? 0 : 1); };
  auto dec = [&](int64_t v) { Delay d; d.s = *in.v[v >> 1]; d.a_ahead = !(v & 1); return d; };
  auto prefix = [&](uint32_t k) {
    vector<int32_t> v;
    while (parent[k] >= 0) { auto& e = edges[parent[k]]; if (e.i) v.push_back(e.i); k = e.from; }
    std::reverse(v.begin(), v.end());
    return v;
  };
  auto suffix = [&](uint32_t k, vector<int32_t>& v) {
    while (nxt[k] >= 0) { auto& e = edges[nxt[k]]; if (e.i) v.push_back(e.i); k = e.to; }
  };
  queue.clear();
  queue.push_back(0);
  delay[0] = enc(Delay());
  auto fail = [&](int kind, uint32_t from, int64_t edge, uint32_t at) {
    r->verdict = 1; r->kind = kind;
    vector<int32_t> v = prefix(from);
    if (edge >= 0 && edges[edge].i) v.push_back(edges[edge].i);
    suffix(at, v);
    put(r, 1, v);
    v = prefix(at);
    suffix(at, v);
    put(r, 2, v);
  };
  for (size_t h = 0; h < queue.size(); ++h) {
    uint32_t k = queue[h];
    Delay d = dec(delay[k]);
    if (isfin(k) && !d.s.empty()) { nxt[k] = -1; fail(1, k, -1, k); return; }
    for (uint64_t e = eoff[k]; e < eoff[k + 1]; ++e) {
      uint32_t t = edges[e].to;
      if (nxt[t] == -2) continue;
      Delay d2 = d;
      if (!extend(d2, edges[e].oa, edges[e].ob)) {
        if (parent[t] < 0 && t != 0) parent[t] = e;
        fail(2, k, e, t); return;
      }
      r->maxdelay = std::max<uint64_t>(r->maxdelay, d2.s.size());
      int64_t c = enc(d2);
      if (delay[t] < 0) { delay[t] = c; parent[t] = e; queue.push_back(t); }
      else if (delay[t] != c) { fail(3, k, e, t); return; }
    }
  }
}

struct VecHash {
  size_t operator()(const vector<int32_t>& v) const {
    uint64_t h = 1469598103934665603ull;
    for (int32_t x : v) { h ^= (uint32_t)x; h *= 1099511628211ull; h ^= h >> 29; }
    return h;
  }
};

// Input projection of B as a lazily determinized acceptor.
struct Subset {
  const Fst& B;
  std::unordered_map<vector<int32_t>, uint32_t, VecHash> ids;
  vector<const vector<int32_t>*> sets;
  vector<char> fin;
  explicit Subset(const Fst& b) : B(b) {}
  uint32_t intern(vector<int32_t>& s) {
    closure(s);
    auto [it, isnew] = ids.emplace(std::move(s), (uint32_t)sets.size());
    if (isnew) {
      sets.push_back(&it->first);
      char f = 0;
      for (int32_t q : it->first) if (B.fin[q] != INF) f = 1;
      fin.push_back(f);
    }
    return it->second;
  }
  void closure(vector<int32_t>& s) {
    std::sort(s.begin(), s.end());
    s.erase(std::unique(s.begin(), s.end()), s.end());
    bool any = false;
    for (int32_t q : s) { const Arc* x = B.begin(q); if (x != B.end(q) && x->i == 0) any = true; }
    if (!any) return;
    std::unordered_set<int32_t> in(s.begin(), s.end());
    vector<int32_t> st(s);
    while (!st.empty()) {
      int32_t q = st.back(); st.pop_back();
      for (const Arc* x = B.begin(q); x != B.end(q) && x->i == 0; ++x)
        if (in.insert(x->n).second) { st.push_back(x->n); s.push_back(x->n); }
    }
    std::sort(s.begin(), s.end());
  }
  // Successors per label, for the labels in arcs of the member states.
  void successors(uint32_t id, std::map<int32_t, vector<int32_t>>& out) {
    for (int32_t q : *sets[id])
      for (const Arc* x = B.begin(q); x != B.end(q); ++x)
        if (x->i) out[x->i].push_back(x->n);
  }
};

// dom(A) included in dom(B).
void incl(const Fst& A, const Fst& B, uint64_t cap, Result* r) {
  memset(r, 0, sizeof(*r));
  if (A.start < 0) return;
  if (B.start < 0) { r->verdict = 1; r->kind = 9; return; }
  Subset D(B);
  vector<int32_t> s{B.start};
  D.intern(s);
  const uint32_t DEAD = 0xffffffffu;
  PairMap pm;
  vector<uint64_t> nodes; vector<int64_t> parent; vector<int32_t> plab;
  bool isnew;
  auto key = [](int32_t p, uint32_t q) { return (uint64_t)(uint32_t)p << 32 | q; };
  pm.find_or_add(key(A.start, 0), 0, &isnew);
  nodes.push_back(key(A.start, 0)); parent.push_back(-1); plab.push_back(0);
  vector<std::unique_ptr<std::map<int32_t, uint32_t>>> memo;
  for (size_t k = 0; k < nodes.size(); ++k) {
    if (nodes.size() > cap) { r->verdict = 2; break; }
    int32_t p = nodes[k] >> 32; uint32_t d = (uint32_t)nodes[k];
    bool bad = A.fin[p] != INF && (d == DEAD || !D.fin[d]);
    if (d == DEAD || bad) {
      // Every state of A is co-accessible (trimmed), so DEAD is a violation: complete it.
      vector<int32_t> v;
      for (int64_t j = k; j >= 0; j = parent[j]) if (plab[j]) v.push_back(plab[j]);
      std::reverse(v.begin(), v.end());
      if (!bad) {
        vector<int32_t> par(A.n(), -1), lab(A.n(), 0), qu{p};
        vector<char> seen(A.n(), 0); seen[p] = 1;
        for (size_t h = 0; h < qu.size(); ++h) {
          int32_t u = qu[h];
          if (A.fin[u] != INF) {
            vector<int32_t> t;
            for (int32_t z = u; z != p; z = par[z]) if (lab[z]) t.push_back(lab[z]);
            v.insert(v.end(), t.rbegin(), t.rend());
            break;
          }
          for (const Arc* x = A.begin(u); x != A.end(u); ++x) if (!seen[x->n]) { seen[x->n] = 1; par[x->n] = u; lab[x->n] = x->i; qu.push_back(x->n); }
        }
      }
      r->verdict = 1; r->kind = 9; put(r, 1, v);
      break;
    }
    if (memo.size() <= d) memo.resize(d + 1);
    if (!memo[d]) {
      std::map<int32_t, vector<int32_t>> succ;
      D.successors(d, succ);
      auto m = std::make_unique<std::map<int32_t, uint32_t>>();
      for (auto& [l, v] : succ) (*m)[l] = D.intern(v);
      memo[d] = std::move(m);
    }
    for (const Arc* x = A.begin(p); x != A.end(p); ++x) {
      ++r->transitions;
      uint32_t nd = d;
      if (x->i) { auto it = memo[d]->find(x->i); nd = it == memo[d]->end() ? DEAD : it->second; }
      pm.find_or_add(key(x->n, nd), (uint32_t)nodes.size(), &isnew);
      if (isnew) { nodes.push_back(key(x->n, nd)); parent.push_back(k); plab.push_back(x->i); }
    }
  }
  r->states = nodes.size();
}

// --- weighted best-path machine ---------------------------------------------

struct Item { int32_t q; int32_t w; std::u32string out; };  // w in 1/1024

struct BestState { vector<Item> items; };

// For the input projection of F: over(p, q) = the most that continuing from p can
// cost more than continuing from q, over all suffixes q accepts (INT32_MAX if p
// fails to follow, or the excess is beyond the bound).  Computed by value iteration
// of the online game in which p answers each move of q; an upper bound, so pruning
// an item at q by an item at p that is cheaper by more than over(p, q) is exact.
struct Dominance {
  vector<int32_t> block;
  int32_t nb = 0;
  vector<int32_t> c;  // nb * nb
  static int32_t W(float w) { return (int32_t)std::lround(w * 1024); }
  static constexpr int32_t TOP = INT32_MAX, BOUND = 6 * 1024, LOW = -BOUND;
  int32_t over(int32_t p, int32_t q) const { return c[(size_t)block[p] * nb + block[q]]; }
  explicit Dominance(const Fst& F) {
    int32_t n = F.n();
    // epsilon-free weighted input automaton
    struct E { int32_t l, w, n; };
    vector<vector<E>> e(n);
    vector<int32_t> fin(n, TOP);
    for (int32_t s = 0; s < n; ++s) {
      std::map<int32_t, int32_t> d{{s, 0}};
      std::deque<int32_t> todo{s};
      while (!todo.empty()) {
        int32_t q = todo.front(); todo.pop_front();
        for (const Arc* x = F.begin(q); x != F.end(q) && x->i == 0; ++x) {
          int32_t w = d[q] + W(x->w);
          auto it = d.find(x->n);
          if (it == d.end() || w < it->second) { d[x->n] = w; todo.push_back(x->n); }
        }
      }
      std::map<std::pair<int32_t, int32_t>, int32_t> m;
      for (auto& [q, w] : d) {
        if (F.fin[q] != INF) fin[s] = std::min(fin[s], w + W(F.fin[q]));
        for (const Arc* x = F.begin(q); x != F.end(q); ++x) if (x->i) {
          auto k = std::make_pair(x->i, x->n);
          int32_t v = w + W(x->w);
          auto it = m.find(k);
          if (it == m.end() || v < it->second) m[k] = v;
        }
      }
      for (auto& [k, v] : m) e[s].push_back({k.first, v, k.second});
    }
    // bisimulation classes
    block.assign(n, 0);
    nb = 1;
    for (;;) {
      std::map<vector<int32_t>, int32_t> ids;
      vector<int32_t> b2(n);
      for (int32_t s = 0; s < n; ++s) {
        std::map<std::pair<int32_t, int32_t>, int32_t> m;
        for (auto& x : e[s]) {
          auto k = std::make_pair(x.l, block[x.n]);
          auto it = m.find(k);
          if (it == m.end() || x.w < it->second) m[k] = x.w;
        }
        vector<int32_t> sig{block[s], fin[s]};
        for (auto& [k, w] : m) { sig.push_back(k.first); sig.push_back(k.second); sig.push_back(w); }
        b2[s] = ids.emplace(sig, (int32_t)ids.size()).first->second;
      }
      bool same = (int32_t)ids.size() == nb;
      nb = ids.size();
      block.swap(b2);
      if (same) break;
    }
    vector<std::map<int32_t, std::map<int32_t, int32_t>>> be(nb);
    vector<int32_t> bf(nb);
    vector<char> done(nb, 0);
    for (int32_t s = 0; s < n; ++s) {
      int32_t b = block[s];
      if (done[b]) continue;
      done[b] = 1;
      bf[b] = fin[s];
      for (auto& x : e[s]) {
        auto& m = be[b][x.l];
        auto it = m.find(block[x.n]);
        if (it == m.end() || x.w < it->second) m[block[x.n]] = x.w;
      }
    }
    c.assign((size_t)nb * nb, LOW);
    for (bool change = true; change;) {
      change = false;
      for (int32_t p = 0; p < nb; ++p) for (int32_t q = 0; q < nb; ++q) {
        int32_t& cur = c[(size_t)p * nb + q];
        if (cur == TOP) continue;
        int32_t v = LOW;
        if (bf[q] != TOP) v = bf[p] == TOP ? TOP : std::max(v, bf[p] - bf[q]);
        if (v != TOP) for (auto& [l, mq] : be[q]) {
          auto it = be[p].find(l);
          if (it == be[p].end()) { v = TOP; break; }
          for (auto& [q2, wq] : mq) {
            int32_t best = TOP;
            for (auto& [p2, wp] : it->second) {
              int32_t x = c[(size_t)p2 * nb + q2];
              if (x == TOP) continue;
              best = std::min(best, std::max(LOW, x + wp - wq));
            }
            if (best == TOP) { v = TOP; break; }
            v = std::max(v, best);
          }
          if (v == TOP) break;
        }
        if (v != TOP && v > BOUND) v = TOP;
        if (v > cur) { cur = v; change = true; }
      }
    }
  }
};

struct Best {
  const Fst& F;
  const Dominance* dom = nullptr;
  std::map<vector<int32_t>, uint32_t> ids;
  vector<BestState> st;
  explicit Best(const Fst& f) : F(f) {}
  static int32_t W(float w) { return (int32_t)std::lround(w * 1024); }
  static vector<int32_t> enc(const BestState& s) {
    vector<int32_t> v;
    for (auto& i : s.items) { v.push_back(i.q); v.push_back(i.w); v.push_back((int32_t)i.out.size()); for (auto c : i.out) v.push_back((int32_t)c); }
    return v;
  }
  // Keeps, per state, the cheapest outputs (all of them if they tie); factors out
  // the common output prefix and the least weight.
  void normalize(vector<Item>& in, std::u32string* out, BestState* res) {
    // epsilon closure with best weights
    std::map<int32_t, std::pair<int32_t, std::set<std::u32string>>> best;
    std::deque<Item> todo(in.begin(), in.end());
    size_t steps = 0;
    while (!todo.empty()) {
      Item it = todo.front(); todo.pop_front();
      if (++steps > 2000000) break;
      auto f = best.find(it.q);
      if (f == best.end()) best[it.q] = {it.w, {it.out}};
      else if (it.w < f->second.first) f->second = {it.w, {it.out}};
      else if (it.w == f->second.first) { if (!f->second.second.insert(it.out).second) continue; }
      else continue;
      for (const Arc* x = F.begin(it.q); x != F.end(it.q) && x->i == 0; ++x) {
        Item n{x->n, it.w + W(x->w), it.out};
        if (x->o) n.out.push_back(x->o);
        todo.push_back(n);
      }
    }
    vector<Item> v;
    int32_t mw = INT32_MAX;
    if (dom) {
      vector<int32_t> drop;
      for (auto& [q, b] : best) for (auto& [p, a] : best) {
        if (p == q) continue;
        int32_t o = dom->over(p, q);
        if (o != Dominance::TOP && a.first + o < b.first) { drop.push_back(q); break; }
      }
      for (int32_t q : drop) best.erase(q);
    }
    for (auto& [q, b] : best) { mw = std::min(mw, b.first); for (auto& o : b.second) v.push_back({q, b.first, o}); }
    out->clear();
    if (!v.empty()) {
      std::u32string pre = v[0].out;
      for (auto& i : v) { size_t k = 0; while (k < pre.size() && k < i.out.size() && pre[k] == i.out[k]) ++k; pre.resize(k); }
      *out = pre;
      for (auto& i : v) { i.out.erase(0, pre.size()); i.w -= mw; }
    }
    res->items = std::move(v);
  }
  uint32_t intern(BestState&& s) {
    auto k = enc(s);
    auto [it, isnew] = ids.emplace(k, (uint32_t)st.size());
    if (isnew) st.push_back(std::move(s));
    return it->second;
  }
  uint32_t start(std::u32string* out) {
    vector<Item> v{{F.start, 0, U""}};
    BestState s;
    normalize(v, out, &s);
    return intern(std::move(s));
  }
  void labels(uint32_t id, std::set<int32_t>& l) {
    for (auto& i : st[id].items) for (const Arc* x = F.begin(i.q); x != F.end(i.q); ++x) if (x->i) l.insert(x->i);
  }
  // -1 if dead
  int64_t step(uint32_t id, int32_t lab, std::u32string* out) {
    vector<Item> v;
    for (auto& i : st[id].items) {
      const Arc* b = std::lower_bound(F.begin(i.q), F.end(i.q), lab, [](const Arc& a, int32_t l) { return a.i < l; });
      for (; b != F.end(i.q) && b->i == lab; ++b) {
        Item n{b->n, i.w + W(b->w), i.out};
        if (b->o) n.out.push_back(b->o);
        v.push_back(std::move(n));
      }
    }
    if (v.empty()) return -1;
    BestState s;
    normalize(v, out, &s);
    return intern(std::move(s));
  }
  // The cheapest outputs at the end of the input.
  void finals(uint32_t id, std::set<std::u32string>& o) {
    int32_t mw = INT32_MAX;
    for (auto& i : st[id].items) if (F.fin[i.q] != INF) {
      int32_t w = i.w + W(F.fin[i.q]);
      if (w < mw) { mw = w; o.clear(); }
      if (w == mw) o.insert(i.out);
    }
  }
};

// Lockstep exploration: the cheapest output of A is unique and equals that of B.
// mode bit 0: A's domain must equal B's (else: compare on the common domain only).
// mode bit 1: explore the labels of B only (B defines the input language).
// mode bit 2: at most one cheapest output (a tie is a violation).
// mode bit 3: prune dominated items (exact; makes more machines finite).
// maxdepth: 0 = no bound.
void best(const Fst& A, const Fst& B, int mode, uint64_t cap, int maxdepth, Result* r) {
  memset(r, 0, sizeof(*r));
  Best ba(A), bb(B);
  std::unique_ptr<Dominance> da, db;
  if (mode & 8) {
    da = std::make_unique<Dominance>(A);
    ba.dom = da.get();
    if (&A == &B) bb.dom = da.get();
    else { db = std::make_unique<Dominance>(B); bb.dom = db.get(); }
  }
  struct Node { int64_t a, b; uint32_t delay; int64_t parent; int32_t lab; int depth; };
  Interner in;
  vector<Node> nodes;
  std::map<std::tuple<int64_t, int64_t, int64_t>, uint32_t> ids;
  auto enc = [&](const Delay& d) { return (int64_t)in(d.s) * 2 + (d.s.empty() || d.a_ahead ? 0 : 1); };
  auto witness = [&](int64_t k, int32_t lab) {
    vector<int32_t> v;
    if (lab) v.push_back(lab);
    for (; k >= 0; k = nodes[k].parent) if (nodes[k].lab) v.push_back(nodes[k].lab);
    std::reverse(v.begin(), v.end());
    return v;
  };
  auto ext = [&](Delay& d, const std::u32string& oa, const std::u32string& ob) {
    for (auto c : oa) if (!extend(d, (int32_t)c, 0)) return false;
    for (auto c : ob) if (!extend(d, 0, (int32_t)c)) return false;
    return true;
  };
  std::u32string oa, ob;
  Delay d;
  Node n0{ba.start(&oa), bb.start(&ob), 0, -1, 0, 0};
  ext(d, oa, ob);
  n0.delay = enc(d);
  nodes.push_back(n0);
  ids[{n0.a, n0.b, n0.delay}] = 0;
  for (size_t k = 0; k < nodes.size(); ++k) {
    if (nodes.size() > cap) { r->verdict = 2; break; }
    Node n = nodes[k];
    Delay dk; dk.s = *in.v[n.delay >> 1]; dk.a_ahead = !(n.delay & 1);
    // end of input here
    std::set<std::u32string> fa, fb;
    ba.finals(n.a, fa); bb.finals(n.b, fb);
    int bad = 0;
    if ((mode & 1) && fa.empty() != fb.empty()) bad = 1;
    else if ((mode & 4) && (fa.size() > 1)) bad = 4;
    else if (!fa.empty() && !fb.empty()) {
      std::set<std::u32string> xa, xb;
      for (auto& o : fa) xa.insert((dk.a_ahead ? dk.s : U"") + o);
      for (auto& o : fb) xb.insert((dk.a_ahead ? U"" : dk.s) + o);
      if (xa != xb) bad = 2;
    }
    if (bad) { r->verdict = 1; r->kind = bad; put(r, 1, witness(k, 0)); break; }
    if (maxdepth && n.depth >= maxdepth) continue;
    std::set<int32_t> labs;
    bb.labels(n.b, labs);
    if (!(mode & 2)) { std::set<int32_t> l2; ba.labels(n.a, l2); if (mode & 1) labs.insert(l2.begin(), l2.end()); }
    bool stop = false;
    for (int32_t l : labs) {
      ++r->transitions;
      int64_t na = ba.step(n.a, l, &oa), nb = bb.step(n.b, l, &ob);
      if (na < 0 && nb < 0) continue;
      if (na < 0 || nb < 0) {
        if (mode & 1) { r->verdict = 1; r->kind = 5; put(r, 1, witness(k, l)); stop = true; break; }
        continue;
      }
      Delay d2 = dk;
      if (!ext(d2, oa, ob)) {
        // Contradiction: outputs differ if both can end; the witness is completed by the caller.
        r->verdict = 1; r->kind = 3; put(r, 1, witness(k, l)); stop = true; break;
      }
      r->maxdelay = std::max<uint64_t>(r->maxdelay, d2.s.size());
      auto key = std::make_tuple(na, nb, enc(d2));
      if (ids.emplace(key, nodes.size()).second) nodes.push_back({na, nb, (uint32_t)enc(d2), (int64_t)k, l, n.depth + 1});
    }
    if (stop) break;
  }
  r->states = nodes.size();
}

}  // namespace

extern "C" {

int mc_load(const char* path, int64_t at, int expand) {
  FILE* f = fopen(path, "rb");
  if (!f) return -1;
  fseek(f, 0, SEEK_END);
  size_t n = ftell(f);
  fseek(f, 0, SEEK_SET);
  vector<char> buf(n);
  size_t got = fread(buf.data(), 1, n, f);
  fclose(f);
  if (got != n) return -1;
  return load_from(buf.data(), n, at, expand);
}

int mc_make(int32_t ns, int32_t start, const float* fin, int64_t na, const int32_t* src,
            const int32_t* il, const int32_t* ol, const float* w, const int32_t* dst, int dotrim, int expand) {
  vector<vector<Arc>> a(ns);
  vector<float> fv(fin, fin + ns);
  for (int64_t k = 0; k < na; ++k) a[src[k]].push_back({il[k], ol[k], w[k], dst[k]});
  int32_t st = start;
  if (dotrim) trim(st, fv, a);
  if (expand) expand_utf8(st, fv, a);
  auto f = std::make_unique<Fst>();
  f->start = a.empty() ? -1 : st; f->fin = fv;
  f->from_lists(a);
  return add(std::move(f));
}

void mc_free(int h) { std::lock_guard<std::mutex> l(g_mu); g_fsts[h].reset(); }
int32_t mc_states(int h) { return get(h)->n(); }
int64_t mc_arcs(int h) { return (int64_t)get(h)->arcs.size(); }
int32_t mc_start(int h) { return get(h)->start; }
void mc_export(int h, float* fin, int32_t* src, int32_t* il, int32_t* ol, float* w, int32_t* dst) {
  Fst* f = get(h);
  memcpy(fin, f->fin.data(), f->fin.size() * 4);
  size_t k = 0;
  for (int32_t s = 0; s < f->n(); ++s) for (const Arc* x = f->begin(s); x != f->end(s); ++x, ++k) {
    src[k] = s; il[k] = x->i; ol[k] = x->o; w[k] = x->w; dst[k] = x->n;
  }
}
int mc_result_size() { return sizeof(Result); }
void mc_agree(int a, int b, uint64_t cap, Result* r) { agree(*get(a), *get(b), cap, r); }
void mc_incl(int a, int b, uint64_t cap, Result* r) { incl(*get(a), *get(b), cap, r); }
void mc_best(int a, int b, int mode, uint64_t cap, int depth, Result* r) { best(*get(a), *get(b), mode, cap, depth, r); }

// Composition (a then b), trimmed; epsilon-sequencing filter not needed for
// unweighted comparison, but redundant paths are avoided with the usual 3-state
// filter.  Returns the handle or -1 if more than cap states.
int mc_compose(int ha, int hb, uint64_t cap) {
  const Fst &A = *get(ha), &B = *get(hb);
  if (A.start < 0 || B.start < 0) {
    auto f = std::make_unique<Fst>(); f->start = -1; f->off.assign(1, 0);
    return add(std::move(f));
  }
  // A's arcs by output label
  vector<uint32_t> ord(A.arcs.size());
  for (size_t k = 0; k < ord.size(); ++k) ord[k] = k;
  for (int32_t s = 0; s < A.n(); ++s)
    std::sort(ord.begin() + A.off[s], ord.begin() + A.off[s + 1], [&](uint32_t x, uint32_t y) { return A.arcs[x].o != A.arcs[y].o ? A.arcs[x].o < A.arcs[y].o : x < y; });
  PairMap pm[2];
  vector<std::pair<uint64_t, char>> nodes;
  vector<vector<Arc>> out;
  vector<float> fin;
  auto key = [](int32_t p, int32_t q) { return (uint64_t)(uint32_t)p << 32 | (uint32_t)q; };
  bool isnew;
  auto node = [&](int32_t p, int32_t q, char f) {
    uint32_t id = pm[(int)f].find_or_add(key(p, q), (uint32_t)nodes.size(), &isnew);
    if (isnew) { nodes.push_back({key(p, q), f}); out.emplace_back(); fin.push_back(INF); }
    return id;
  };
  node(A.start, B.start, 0);
  for (size_t k = 0; k < nodes.size(); ++k) {
    if (nodes.size() > cap) return -1;
    int32_t p = nodes[k].first >> 32, q = (int32_t)(nodes[k].first & 0xffffffffu);
    char f = nodes[k].second;
    fin[k] = A.fin[p] == INF || B.fin[q] == INF ? INF : A.fin[p] + B.fin[q];
    uint64_t x = A.off[p], xe = A.off[p + 1];
    const Arc *y = B.begin(q), *ye = B.end(q);
    // A's output epsilons (allowed only before B's epsilons: f == 0)
    for (; x != xe && A.arcs[ord[x]].o == 0; ++x) if (f == 0) {
      const Arc& a = A.arcs[ord[x]];
      uint32_t id = node(a.n, q, 0);
      out[k].push_back({a.i, 0, a.w, (int32_t)id});
    }
    for (; y != ye && y->i == 0; ++y) {
      uint32_t id = node(p, y->n, 1);
      out[k].push_back({0, y->o, y->w, (int32_t)id});
    }
    while (x != xe && y != ye) {
      const Arc& a = A.arcs[ord[x]];
      if (a.o < y->i) { ++x; continue; }
      if (y->i < a.o) { ++y; continue; }
      for (const Arc* v = y; v != ye && v->i == a.o; ++v) {
        uint32_t id = node(a.n, v->n, 0);
        out[k].push_back({a.i, v->o, a.w + v->w, (int32_t)id});
      }
      ++x;
    }
  }
  int32_t st = 0;
  trim(st, fin, out);
  auto f = std::make_unique<Fst>();
  f->start = out.empty() ? -1 : st; f->fin = fin;
  f->from_lists(out);
  return add(std::move(f));
}

// Unweighted transducer of the cheapest outputs (all of them if they tie), by the
// subset construction with pruning.  -1 if more than cap states.
int mc_determinize(int h, uint64_t cap) {
  const Fst& F = *get(h);
  vector<vector<Arc>> a;
  vector<float> fin;
  if (F.start < 0) {
    auto f = std::make_unique<Fst>(); f->start = -1; f->off.assign(1, 0);
    return add(std::move(f));
  }
  Dominance dom(F);
  Best b(F);
  b.dom = &dom;
  auto fresh = [&]() { a.emplace_back(); fin.push_back(INF); return (int32_t)a.size() - 1; };
  // The state from which only the string o is written (reading nothing) on the way to `to`.
  std::map<std::pair<std::u32string, int32_t>, int32_t> writers;
  auto writer = [&](const std::u32string& o, int32_t to) {
    int32_t cur = to;
    for (size_t k = o.size(); k-- > 0;) {
      auto [it, isnew] = writers.emplace(std::make_pair(o.substr(k), to), 0);
      if (isnew) { it->second = fresh(); a[it->second].push_back({0, (int32_t)o[k], 0.f, cur}); }
      cur = it->second;
    }
    return cur;
  };
  // an arc reading lab (0: none) and writing the string o
  auto chain = [&](int32_t from, int32_t lab, const std::u32string& o, int32_t to) {
    int32_t nx = o.size() > 1 ? writer(o.substr(1), to) : to;
    a[from].push_back({lab, o.empty() ? 0 : (int32_t)o[0], 0.f, nx});
  };
  std::u32string out;
  int32_t root = fresh(), end = -1;
  vector<int32_t> id;
  uint32_t s0 = b.start(&out);
  id.push_back(fresh());
  chain(root, 0, out, id[0]);
  for (uint32_t s = s0; s < b.st.size(); ++s) {
    if (b.st.size() > cap) return -1;
    std::set<std::u32string> f;
    b.finals(s, f);
    for (auto& o : f) {
      if (end < 0) { end = fresh(); fin[end] = 0; }
      if (o.empty()) fin[id[s]] = 0;
      else chain(id[s], 0, o, end);
    }
    std::set<int32_t> labs;
    b.labels(s, labs);
    for (int32_t l : labs) {
      int64_t t = b.step(s, l, &out);
      if (t < 0) continue;
      while (id.size() < b.st.size()) id.push_back(fresh());
      chain(id[s], l, out, id[t]);
    }
  }
  int32_t st = root;
  trim(st, fin, a);
  auto f = std::make_unique<Fst>();
  f->start = a.empty() ? -1 : st; f->fin = fin;
  f->from_lists(a);
  return add(std::move(f));
}

// The least sequential transducer of the function of cheapest outputs: subset
// construction with pruning, outputs moved as early as possible, equivalent states
// merged.  -1 if more than cap states; -3 if some input has two cheapest outputs.
int mc_reduce(int h, uint64_t cap, uint64_t* explored) {
  const Fst& F = *get(h);
  *explored = 0;
  if (F.start < 0) {
    auto f = std::make_unique<Fst>(); f->start = -1; f->off.assign(1, 0);
    return add(std::move(f));
  }
  bool weighted = false;
  for (const Arc& x : F.arcs) weighted |= x.w != 0.f;
  for (float w : F.fin) weighted |= w != INF && w != 0.f;
  std::unique_ptr<Dominance> dom;
  Best b(F);
  if (weighted) { dom = std::make_unique<Dominance>(F); b.dom = dom.get(); }
  struct E { int32_t l; uint32_t to; std::u32string o; };
  vector<vector<E>> rows;
  vector<char> hasfin;
  vector<std::u32string> fino;
  std::u32string out, first;
  uint32_t s0 = b.start(&first);
  for (uint32_t s = s0; s < b.st.size(); ++s) {
    if (b.st.size() > cap) return -1;
    std::set<std::u32string> f;
    b.finals(s, f);
    if (f.size() > 1) return -3;
    hasfin.push_back(!f.empty());
    fino.push_back(f.empty() ? U"" : *f.begin());
    std::set<int32_t> labs;
    b.labels(s, labs);
    rows.emplace_back();
    for (int32_t l : labs) {
      int64_t t = b.step(s, l, &out);
      if (t >= 0) rows[s].push_back({l, (uint32_t)t, out});
    }
  }
  uint32_t n = rows.size();
  *explored = n;
  // common prefixes
  vector<std::u32string> pre(n);
  vector<char> known(n, 0), inq(n, 1);
  vector<vector<uint32_t>> preds(n);
  for (uint32_t s = 0; s < n; ++s) for (auto& e : rows[s]) if (preds[e.to].empty() || preds[e.to].back() != s) preds[e.to].push_back(s);
  vector<uint32_t> work(n);
  for (uint32_t s = 0; s < n; ++s) work[s] = s;
  while (!work.empty()) {
    uint32_t s = work.back(); work.pop_back(); inq[s] = 0;
    bool k = hasfin[s];
    std::u32string p = fino[s];
    for (auto& e : rows[s]) {
      if (!known[e.to]) continue;
      if (k && p.empty()) break;
      std::u32string x = e.o + pre[e.to];
      if (!k) { p = x; k = true; continue; }
      size_t j = 0;
      while (j < p.size() && j < x.size() && p[j] == x[j]) ++j;
      p.resize(j);
    }
    if (k != (bool)known[s] || p != pre[s]) {
      known[s] = k; pre[s] = p;
      for (uint32_t q : preds[s]) if (!inq[q]) { inq[q] = 1; work.push_back(q); }
    }
  }
  if (!known[s0]) {
    auto f = std::make_unique<Fst>(); f->start = -1; f->off.assign(1, 0);
    return add(std::move(f));
  }
  std::map<std::u32string, int32_t> strs;
  vector<std::u32string> byid;
  auto sid = [&](const std::u32string& o) {
    auto [it, isnew] = strs.emplace(o, (int32_t)byid.size());
    if (isnew) byid.push_back(o);
    return it->second;
  };
  struct R { int32_t l, o; uint32_t to; };
  vector<vector<R>> r(n);
  vector<int32_t> fo(n, -1);
  for (uint32_t s = 0; s < n; ++s) {
    if (!known[s]) continue;
    if (hasfin[s]) fo[s] = sid(fino[s].substr(pre[s].size()));
    for (auto& e : rows[s]) if (known[e.to]) r[s].push_back({e.l, sid((e.o + pre[e.to]).substr(pre[s].size())), e.to});
    rows[s].clear();
  }
  vector<int32_t> cls(n, 0);
  int32_t nc = 1;
  for (;;) {
    std::unordered_map<vector<int32_t>, int32_t, VecHash> ids;
    vector<int32_t> c2(n);
    for (uint32_t s = 0; s < n; ++s) {
      vector<int32_t> sig{cls[s], fo[s], known[s]};
      for (auto& e : r[s]) { sig.push_back(e.l); sig.push_back(e.o); sig.push_back(cls[e.to]); }
      c2[s] = ids.emplace(std::move(sig), (int32_t)ids.size()).first->second;
    }
    bool same = (int32_t)ids.size() == nc;
    nc = ids.size();
    cls.swap(c2);
    if (same) break;
  }
  vector<vector<Arc>> a(nc);
  vector<float> fin(nc, INF);
  vector<char> done(nc, 0);
  auto fresh = [&]() { a.emplace_back(); fin.push_back(INF); return (int32_t)a.size() - 1; };
  std::map<std::pair<std::u32string, int32_t>, int32_t> writers;
  auto writer = [&](const std::u32string& o, int32_t to) {
    int32_t cur = to;
    for (size_t k = o.size(); k-- > 0;) {
      auto [it, isnew] = writers.emplace(std::make_pair(o.substr(k), to), 0);
      if (isnew) { it->second = fresh(); a[it->second].push_back({0, (int32_t)o[k], 0.f, cur}); }
      cur = it->second;
    }
    return cur;
  };
  auto chain = [&](int32_t from, int32_t lab, const std::u32string& o, int32_t to) {
    int32_t nx = o.size() > 1 ? writer(o.substr(1), to) : to;
    a[from].push_back({lab, o.empty() ? 0 : (int32_t)o[0], 0.f, nx});
  };
  int32_t end = -1;
  for (uint32_t s = 0; s < n; ++s) {
    int32_t c = cls[s];
    if (done[c] || !known[s]) continue;
    done[c] = 1;
    if (fo[s] >= 0) {
      const std::u32string& o = byid[fo[s]];
      if (o.empty()) fin[c] = 0;
      else {
        if (end < 0) { end = fresh(); fin[end] = 0; }
        chain(c, 0, o, end);
      }
    }
    for (auto& e : r[s]) chain(c, e.l, byid[e.o], cls[e.to]);
  }
  int32_t st = cls[s0];
  std::u32string lead = first + pre[s0];
  if (!lead.empty()) { int32_t root = fresh(); chain(root, 0, lead, st); st = root; }
  trim(st, fin, a);
  auto f = std::make_unique<Fst>();
  f->start = a.empty() ? -1 : st; f->fin = fin;
  f->from_lists(a);
  return add(std::move(f));
}

// Inverts (swaps input and output).
int mc_invert(int h) {
  const Fst& A = *get(h);
  vector<vector<Arc>> a(A.n());
  for (int32_t s = 0; s < A.n(); ++s) for (const Arc* x = A.begin(s); x != A.end(s); ++x) a[s].push_back({x->o, x->i, x->w, x->n});
  auto f = std::make_unique<Fst>();
  f->start = A.start; f->fin = A.fin;
  f->from_lists(a);
  return add(std::move(f));
}

// Byte transducer from a code point transducer.
int mc_expand(int h) {
  const Fst& A = *get(h);
  vector<vector<Arc>> a(A.n());
  for (int32_t s = 0; s < A.n(); ++s) a[s].assign(A.begin(s), A.end(s));
  vector<float> fin = A.fin;
  int32_t st = A.start;
  expand_utf8(st, fin, a);
  auto f = std::make_unique<Fst>();
  f->start = st; f->fin = fin;
  f->from_lists(a);
  return add(std::move(f));
}

// All cheapest outputs of h for the input; writes them as [len, labels...]* to buf.
// Returns their number, or -1 if they do not fit.
int mc_apply(int h, const int32_t* in, int n, int32_t* buf, int cap, float* weight) {
  const Fst& F = *get(h);
  if (F.start < 0) return 0;
  Best b(F);
  std::u32string pre, out;
  uint32_t s = b.start(&out);
  pre = out;
  for (int k = 0; k < n; ++k) {
    int64_t t = b.step(s, in[k], &out);
    if (t < 0) return 0;
    pre += out;
    s = (uint32_t)t;
  }
  std::set<std::u32string> o;
  b.finals(s, o);
  int pos = 0;
  for (auto& x : o) {
    std::u32string y = pre + x;
    if (pos + 1 + (int)y.size() > cap) return -1;
    buf[pos++] = (int32_t)y.size();
    for (auto c : y) buf[pos++] = (int32_t)c;
  }
  return (int)o.size();
}

}  // extern "C"
