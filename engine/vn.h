// Value numbers for the abstract interpreter (Herbrand equivalences with a
// linear/boolean normal form).  Every word is a vector of bits, every bit an
// exclusive-or of atoms.  An atom is an input bit, one bit of an uninterpreted
// operation (sum, product, rotation by an unknown amount, table read, ...) or a
// basis function of a small boolean function group.  Two words with the same
// number have the same value for every input.  Nothing is executed: numbers are
// attached to the abstract values of the one fixpoint the analysis computes.
#ifndef VN_H
#define VN_H
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
namespace vn {
typedef uint32_t B;   // (set << 1) | complement ; 0 = false, 1 = true
typedef uint32_t W;   // word number, 0 = unknown
using std::vector;
enum Op : uint8_t { INPUT, ADD, MUL, ROLV, SHLV, SHRV, SARV, UDIV, UREM, SEL, UPD, EQZ, ULT, SLT, FN, PROD, UF, UFINV, BIG, FRESH };
typedef vector<uint64_t> TT;
struct Node { Op op; uint32_t w; uint32_t aux; vector<uint32_t> a; uint32_t atom; uint32_t depth; TT tt; };
static bool on = false;
static vector<Node> nodes; static vector<uint32_t> atomNode;
static vector<vector<uint32_t>> sets; static vector<uint32_t> setDepth;
static vector<vector<B>> words;
struct H { size_t operator()(const vector<uint32_t>&v) const { uint64_t h = v.size() * 0x9E3779B97F4A7C15ull; for (uint32_t x : v) { h ^= x; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h; } };
static inline uint64_t hv(uint64_t h, const uint32_t *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= p[i]; h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } return h; }
// hash-consing index over ids held elsewhere (compares full content, stores ids only)
struct Ix { vector<uint32_t> t; size_t n = 0; void clear() { t.clear(); n = 0; }
  template <class HF> void grow(HF hf) { vector<uint32_t> o; o.swap(t); t.assign(o.empty() ? 1024 : o.size() * 2, ~0u); for (uint32_t x : o) if (x != ~0u) { size_t i = hf(x) & (t.size() - 1); while (t[i] != ~0u) i = (i + 1) & (t.size() - 1); t[i] = x; } }
  template <class HF, class EQ> uint32_t find(uint64_t h, HF hf, EQ eq) { if ((n + 1) * 2 > t.size()) grow(hf); size_t i = h & (t.size() - 1); while (t[i] != ~0u) { if (eq(t[i])) return t[i]; i = (i + 1) & (t.size() - 1); } return ~0u; }
  void put(uint64_t h, uint32_t id) { size_t i = h & (t.size() - 1); while (t[i] != ~0u) i = (i + 1) & (t.size() - 1); t[i] = id; n++; } };
static Ix setIx, wordIx, nodeIx, tabIx;
static vector<vector<W>> tabs; static vector<uint32_t> tabDepth;
static inline uint64_t hvec(const vector<uint32_t> &v) { return hv(v.size() * 0x9E3779B97F4A7C15ull, v.data(), v.size()); }
static inline uint64_t hnode(const Node &n) { return hv(((uint64_t)n.op << 32 | n.w) * 0x9E3779B97F4A7C15ull + n.aux, n.a.data(), n.a.size()); }
static std::unordered_map<uint64_t, uint32_t> xorMemo, andMemo;
static std::unordered_map<W, vector<W>> bytesOf; static std::unordered_map<W, std::pair<W, int>> originOf;
struct LF { unsigned w; uint64_t c; vector<std::pair<W, uint64_t>> t; };
static std::unordered_map<W, std::pair<int, std::pair<W, W>>> shOf; // variable shifts: operation, value, amount
static std::unordered_map<W, LF> lfOf; static std::unordered_map<W, std::pair<W, W>> rolOf;
struct Grp { vector<TT> rows; vector<int> piv; vector<uint64_t> lin; vector<vector<uint32_t>> comb; vector<uint32_t> node; };
static std::unordered_map<vector<uint32_t>, Grp, H> groups;
static uint64_t capHits = 0, proved = 0, refuted = 0, open_ = 0, off = 0, maxsets = 0;
static size_t SETCAP = 24; static const size_t NODECAP = 5000000;
static vector<std::string> ufNames;

static uint32_t mkSet(vector<uint32_t> v) { uint64_t h = hvec(v); uint32_t id = setIx.find(h, [](uint32_t i) { return hvec(sets[i]); }, [&](uint32_t i) { return sets[i] == v; }); if (id != ~0u) return id; id = sets.size(); uint32_t d = 0; for (uint32_t a : v) d = std::max(d, nodes[atomNode[a]].depth); setIx.put(h, id); v.shrink_to_fit(); sets.push_back(std::move(v)); setDepth.push_back(d); return id; }
static void reset() { nodes.clear(); atomNode.clear(); sets.clear(); setDepth.clear(); words.clear(); setIx.clear(); wordIx.clear(); nodeIx.clear(); tabIx.clear(); tabs.clear(); tabDepth.clear(); xorMemo.clear(); andMemo.clear(); bytesOf.clear(); originOf.clear(); lfOf.clear(); rolOf.clear(); shOf.clear(); groups.clear(); ufNames.clear();
  mkSet({}); words.push_back({}); on = false; }
static bool full() { return nodes.size() > NODECAP || words.size() > NODECAP || sets.size() > NODECAP; }
static uint32_t mkNode(Op op, uint32_t w, uint32_t aux, vector<uint32_t> a, bool fresh = false) {
  Node n; n.op = op; n.w = w; n.aux = aux; n.a = std::move(a); uint64_t h = hnode(n);
  if (!fresh) { uint32_t id = nodeIx.find(h, [](uint32_t i) { return hnode(nodes[i]); }, [&](uint32_t i) { const Node &o = nodes[i]; return o.op == op && o.w == w && o.aux == aux && o.a == n.a; }); if (id != ~0u) return id; }
  uint32_t id = nodes.size(); n.atom = atomNode.size(); n.depth = 0;
  auto wd = [&](W x) { for (B b : words[x]) n.depth = std::max(n.depth, setDepth[b >> 1] + 1); };
  switch (op) { case INPUT: case FRESH: break; case FN: case PROD: case BIG: for (uint32_t s : n.a) n.depth = std::max(n.depth, setDepth[s] + 1); break;
    case ADD: for (size_t i = 2; i < n.a.size(); i += 3) wd(n.a[i]); break;
    case SEL: wd(n.a[0]); n.depth = std::max(n.depth, tabDepth[n.a[3]] + 1); break;
    case UPD: wd(n.a[0]); wd(n.a[2]); wd(n.a[3]); break;
    case UF: case UFINV: for (size_t i = 1; i < n.a.size(); i++) wd(n.a[i]); break;
    default: for (uint32_t x : n.a) wd(x); }
  for (uint32_t i = 0; i < w; i++) atomNode.push_back(id); nodes.push_back(std::move(n)); if (!fresh) nodeIx.put(h, id); return id; }
static B atomBit(uint32_t node, uint32_t i) { return mkSet({nodes[node].atom + i}) << 1; }
static W mkWord(const vector<B> &v) { uint64_t h = hvec(v); uint32_t id = wordIx.find(h, [](uint32_t i) { return hvec(words[i]); }, [&](uint32_t i) { return words[i] == v; }); if (id != ~0u) return id; id = words.size(); wordIx.put(h, id); words.push_back(v); return id; }
static uint32_t mkTab(vector<W> v) { uint64_t h = hvec(v); uint32_t id = tabIx.find(h, [](uint32_t i) { return hvec(tabs[i]); }, [&](uint32_t i) { return tabs[i] == v; }); if (id != ~0u) return id; id = tabs.size(); uint32_t d = 0; for (W x : v) for (B b : words[x]) d = std::max(d, setDepth[b >> 1]); tabIx.put(h, id); tabs.push_back(std::move(v)); tabDepth.push_back(d); return id; }
static W nodeWord(uint32_t node, unsigned w) { vector<B> v(w); for (unsigned i = 0; i < w; i++) v[i] = atomBit(node, i); return mkWord(v); }
static W cw(uint64_t c, unsigned w) { vector<B> v(w); for (unsigned i = 0; i < w; i++) v[i] = i < 64 ? (c >> i) & 1 : 0; return mkWord(v); }
static bool isConst(W x, uint64_t *c = nullptr) { uint64_t r = 0; auto &v = words[x]; for (size_t i = 0; i < v.size(); i++) { if (v[i] > 1) return false; r |= (uint64_t)v[i] << i; } if (c) *c = r; return true; }
static W input(int cls, int ix) { return nodeWord(mkNode(INPUT, 8, cls, {(uint32_t)ix}), 8); }
static uint32_t sx(uint32_t a, uint32_t b) { // xor of sets
  if (!a) return b; if (!b) return a; if (a == b) return 0; if (a > b) std::swap(a, b); uint64_t k = (uint64_t)a << 32 | b; auto it = xorMemo.find(k); if (it != xorMemo.end()) return it->second;
  auto &x = sets[a], &y = sets[b]; vector<uint32_t> r; r.reserve(x.size() + y.size()); std::set_symmetric_difference(x.begin(), x.end(), y.begin(), y.end(), std::back_inserter(r));
  uint32_t s = mkSet(std::move(r)); if (sets[s].size() > SETCAP) { capHits++; uint32_t n = mkNode(BIG, 1, 0, {s}); s = mkSet({nodes[n].atom}); } // a long exclusive-or is one atom, named by its members
  if (x.size() + y.size() > 2 || true) xorMemo.emplace(k, s); return s; }
static B bx(B a, B b) { return (sx(a >> 1, b >> 1) << 1) | ((a ^ b) & 1); }
// ---------------------------------------------------------------- small boolean functions
static const int KMAX = 10, KAND = 6;
static int ttWords(int k) { return k <= 6 ? 1 : 1 << (k - 6); }
static uint64_t ttMask(int k) { return k >= 6 ? ~0ull : (1ull << (1 << k)) - 1; }
static TT ttVar(int i, int k) { static const uint64_t m[6] = {0xAAAAAAAAAAAAAAAAull, 0xCCCCCCCCCCCCCCCCull, 0xF0F0F0F0F0F0F0F0ull, 0xFF00FF00FF00FF00ull, 0xFFFF0000FFFF0000ull, 0xFFFFFFFF00000000ull};
  TT t(ttWords(k)); for (size_t w = 0; w < t.size(); w++) t[w] = i < 6 ? m[i] & ttMask(k) : ((w >> (i - 6)) & 1 ? ~0ull : 0); return t; }
static bool ttGet(const TT &t, unsigned i) { return t[i >> 6] >> (i & 63) & 1; }
static void ttXor(TT &a, const TT &b) { for (size_t i = 0; i < a.size(); i++) a[i] ^= b[i]; }
static bool ttZero(const TT &a) { for (uint64_t x : a) if (x) return false; return true; }
static int ttTop(const TT &a) { for (int i = (int)a.size() - 1; i >= 0; i--) if (a[i]) return i * 64 + 63 - __builtin_clzll(a[i]); return -1; }
// linear independent subset of unit sets; every given set expressed over it: mask per set
struct Basis { vector<uint32_t> u; vector<std::pair<uint32_t, uint64_t>> rows; // reduced set, mask over u
  int add(uint32_t s, uint64_t &mask, size_t lim) { uint32_t r = s; mask = 0; for (auto &p : rows) { if (!r) break; uint32_t lead = sets[p.first].back(); auto &v = sets[r]; if (std::binary_search(v.begin(), v.end(), lead)) { r = sx(r, p.first); mask ^= p.second; } }
    if (!r) return 0; if (u.size() >= lim) return -1; uint64_t me = 1ull << u.size(); u.push_back(s); rows.push_back({r, mask ^ me}); mask = me; return 1; } };
// product of units; a product of short sums of sum bits is multiplied out
static B monomial(const vector<uint32_t> &m) { size_t n = 1; for (uint32_t u : m) { n *= sets[u].size(); for (uint32_t a : sets[u]) if (nodes[atomNode[a]].op != ADD) n = 99; if (n > 8) break; }
  if (n <= 1 || n > 8) return atomBit(mkNode(PROD, 1, 0, m), 0);
  B r = 0; for (size_t c = 0; c < n; c++) { vector<uint32_t> q; size_t k = c; for (uint32_t u : m) { uint32_t one = mkSet({sets[u][k % sets[u].size()]}); k /= sets[u].size(); if (std::find(q.begin(), q.end(), one) == q.end()) q.push_back(one); } std::sort(q.begin(), q.end()); r = bx(r, q.size() == 1 ? q[0] << 1 : atomBit(mkNode(PROD, 1, 0, q), 0)); }
  return r; }
// canonical bit for truth table t over independent units u
static B fromTT(vector<uint32_t> u, TT t) {
  int k = u.size();
  // drop variables without influence
  for (int i = k - 1; i >= 0; i--) { TT v = ttVar(i, k); bool dep = false; unsigned n = 1u << k; for (unsigned x = 0; x < n && !dep; x++) if (!(x >> i & 1) && ttGet(t, x) != ttGet(t, x | 1u << i)) dep = true;
    if (!dep) { TT r(ttWords(k - 1)); for (unsigned x = 0; x < n / 2; x++) { unsigned y = (x & ((1u << i) - 1)) | (x >> i) << (i + 1); if (ttGet(t, y)) r[x >> 6] |= 1ull << (x & 63); } t = r; u.erase(u.begin() + i); k--; } }
  // canonical order of the variables
  { vector<int> p(k); for (int i = 0; i < k; i++) p[i] = i; std::sort(p.begin(), p.end(), [&](int a, int b) { return u[a] < u[b]; }); bool id = true; for (int i = 0; i < k; i++) if (p[i] != i) id = false;
    if (!id) { TT r(ttWords(k)); vector<uint32_t> v(k); for (int i = 0; i < k; i++) v[i] = u[p[i]]; for (unsigned x = 0; x < 1u << k; x++) { unsigned y = 0; for (int i = 0; i < k; i++) if (x >> i & 1) y |= 1u << p[i]; if (ttGet(t, y)) r[x >> 6] |= 1ull << (x & 63); } t = r; u = v; } }
  B r = ttGet(t, 0); if (r) for (size_t i = 0; i < t.size(); i++) t[i] ^= ttMask(k); if (ttZero(t)) return r;
  if (k <= 4) { // algebraic normal form; a monomial is an atom
    uint64_t a = t[0]; for (int i = 0; i < k; i++) for (unsigned x = 0; x < 1u << k; x++) if (x >> i & 1) a ^= (a >> (x ^ 1u << i) & 1) << x;
    for (unsigned x = 1; x < 1u << k; x++) if (a >> x & 1) { vector<uint32_t> m; for (int i = 0; i < k; i++) if (x >> i & 1) m.push_back(u[i]); if (m.size() == 1) r = bx(r, m[0] << 1); else r = bx(r, monomial(m)); }
    return r; }
  Grp &g = groups[u]; if (g.rows.empty()) { for (int i = 0; i < k; i++) { TT v = ttVar(i, k); g.rows.push_back(v); g.comb.push_back({}); g.lin.push_back(1ull << i); g.node.push_back(0); }
    // echelon form of the linear functions is immediate: pivots by reduction below
    vector<TT> rows; vector<uint64_t> lin; for (int i = 0; i < k; i++) { TT v = g.rows[i]; uint64_t l = 1ull << i; for (size_t j = 0; j < rows.size(); j++) if (ttGet(v, ttTop(rows[j]))) { ttXor(v, rows[j]); l ^= lin[j]; } rows.push_back(v); lin.push_back(l); }
    g.rows = rows; g.lin = lin; g.piv.clear(); for (auto &v : rows) g.piv.push_back(ttTop(v)); }
  uint64_t lin = 0; vector<uint32_t> comb; TT t0 = t; for (size_t j = 0; j < g.rows.size(); j++) if (ttGet(t, g.piv[j])) { ttXor(t, g.rows[j]); lin ^= g.lin[j]; vector<uint32_t> c; std::set_symmetric_difference(comb.begin(), comb.end(), g.comb[j].begin(), g.comb[j].end(), std::back_inserter(c)); comb = c; }
  if (!ttZero(t)) { // a new basis function: the function itself, so that its inputs do not enter its name's users
    uint32_t n = mkNode(FN, 1, g.rows.size(), u, true); nodes[n].tt = t0; vector<uint32_t> c, one = {n}; std::set_symmetric_difference(comb.begin(), comb.end(), one.begin(), one.end(), std::back_inserter(c)); g.rows.push_back(t); g.piv.push_back(ttTop(t)); g.lin.push_back(lin); g.comb.push_back(c); return bx(r, atomBit(n, 0)); }
  for (int i = 0; i < k; i++) if (lin >> i & 1) r = bx(r, u[i] << 1); for (uint32_t n : comb) r = bx(r, atomBit(n, 0)); return r; }
// support of a set as a function of lower units: top-depth function atoms + residue
static bool support(uint32_t s, uint32_t depth, vector<uint32_t> &units, uint32_t &residue, vector<uint32_t> &top) {
  residue = s; top.clear(); units.clear(); if (setDepth[s] != depth || depth == 0) { return true; }
  vector<uint32_t> rest; for (uint32_t a : sets[s]) { Node &n = nodes[atomNode[a]]; if (n.depth == depth && (n.op == FN || n.op == PROD)) { top.push_back(atomNode[a]); if (top.size() > 200) return false; for (uint32_t x : n.a) if (std::find(units.begin(), units.end(), x) == units.end()) units.push_back(x); if (units.size() > (size_t)KMAX) return false; } else { if (n.depth == depth) return false; rest.push_back(a); } }
  residue = mkSet(rest); return true; }
// truth tables of bits over common lower units, at most lim of them
static bool express(const vector<uint32_t> &ss, uint32_t depth, size_t lim, Basis &bs, vector<TT> &out) {
  vector<vector<uint32_t>> us(ss.size()), tops(ss.size()); vector<uint32_t> res(ss.size());
  vector<uint32_t> cand; auto push = [&](uint32_t x) { if (x && std::find(cand.begin(), cand.end(), x) == cand.end()) cand.push_back(x); };
  for (size_t i = 0; i < ss.size(); i++) { if (!support(ss[i], depth, us[i], res[i], tops[i])) return false; for (uint32_t x : us[i]) push(x); push(res[i]); if (cand.size() > 2 * lim + 8) return false; }
  std::sort(cand.begin(), cand.end()); std::unordered_map<uint32_t, uint64_t> mk; for (uint32_t x : cand) { uint64_t m; if (bs.add(x, m, lim) < 0) return false; mk[x] = m; }
  int k = bs.u.size(); auto lin = [&](uint64_t m) { TT t(ttWords(k)); for (int i = 0; i < k; i++) if (m >> i & 1) ttXor(t, ttVar(i, k)); return t; };
  for (size_t i = 0; i < ss.size(); i++) { TT t(ttWords(k)); if (res[i]) t = lin(mk[res[i]]);
    for (uint32_t n : tops[i]) { Node &N = nodes[n]; vector<TT> v; for (uint32_t x : N.a) v.push_back(lin(mk[x]));
      if (N.op == PROD) { TT p(ttWords(k), ttMask(k)); for (auto &q : v) for (size_t j = 0; j < p.size(); j++) p[j] &= q[j]; ttXor(t, p); }
      else { TT p(ttWords(k)); for (unsigned x = 0; x < 1u << k; x++) { unsigned y = 0; for (size_t j = 0; j < v.size(); j++) if (ttGet(v[j], x)) y |= 1u << j; if (ttGet(N.tt, y)) p[x >> 6] |= 1ull << (x & 63); } ttXor(t, p); } }
    out.push_back(t); }
  return true; }
// product of short polynomials over sum bits
static bool polyMul(B a, B b, B &r) { uint32_t x = a >> 1, y = b >> 1; size_t na = sets[x].size() + (a & 1), nb = sets[y].size() + (b & 1); if (na * nb > 24) return false;
  auto terms = [](B z, vector<vector<uint32_t>> &t) { if (z & 1) t.push_back({}); for (uint32_t at : sets[z >> 1]) { Node &n = nodes[atomNode[at]]; if (n.op == ADD) t.push_back({mkSet({at})}); else if (n.op == PROD) { for (uint32_t u : n.a) if (sets[u].size() != 1 || nodes[atomNode[sets[u][0]]].op != ADD) return false; t.push_back(n.a); } else return false; } return true; };
  vector<vector<uint32_t>> p, q; if (!terms(a, p) || !terms(b, q)) return false;
  B z = 0; for (auto &i : p) for (auto &j : q) { vector<uint32_t> m; std::set_union(i.begin(), i.end(), j.begin(), j.end(), std::back_inserter(m)); if (m.size() > 5) return false; z = bx(z, m.empty() ? 1 : m.size() == 1 ? m[0] << 1 : atomBit(mkNode(PROD, 1, 0, m), 0)); }
  r = z; return true; }
static B band(B a, B b) {
  if (a == b) return a; if (a < 2) return a ? b : 0; if (b < 2) return b ? a : 0; if (a == (b ^ 1)) return 0; if (a > b) std::swap(a, b);
  uint64_t key = (uint64_t)a << 32 | b; auto it = andMemo.find(key); if (it != andMemo.end()) return it->second;
  { B q; if (polyMul(a, b, q)) { andMemo.emplace(key, q); return q; } }
  uint32_t x = a >> 1, y = b >> 1; B r; uint32_t d = std::max(setDepth[x], setDepth[y]); Basis bs; vector<TT> t;
  bool small = d > 0 && sets[x].size() <= 64 && sets[y].size() <= 64 && express({x, y}, d, KAND, bs, t) && bs.u.size() > 0;
  if (!small) { bs = Basis(); t.clear(); uint64_t m; bs.add(x, m, 2); uint64_t m2; bs.add(y, m2, 2); t = {ttVar(0, 2), ttVar(1, 2)}; }
  int k = bs.u.size(); if (a & 1) for (auto &w : t[0]) w ^= ttMask(k); if (b & 1) for (auto &w : t[1]) w ^= ttMask(k); for (size_t i = 0; i < t[0].size(); i++) t[0][i] &= t[1][i];
  r = fromTT(bs.u, t[0]); andMemo.emplace(key, r); return r; }
// ---------------------------------------------------------------- words
static inline uint64_t mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static W trunc_(W x, unsigned w); static LF asLF(W x, unsigned w);
static W mkLF(LF f) { // normalise, intern
  f.c &= mask(f.w); vector<std::pair<W, uint64_t>> t; std::sort(f.t.begin(), f.t.end()); for (auto &p : f.t) { if (!t.empty() && t.back().first == p.first) t.back().second += p.second; else t.push_back(p); } f.t.clear(); for (auto &p : t) { p.second &= mask(f.w); if (p.second) f.t.push_back(p); }
  if (f.t.empty()) return cw(f.c, f.w); if (f.t.size() == 1 && f.t[0].second == 1 && !f.c) return f.t[0].first;
  if (f.t.size() == 1 && f.t[0].second == 1) { auto v = words[f.t[0].first]; bool dis = v.size() == f.w; for (size_t i = 0; dis && i < v.size(); i++) if (v[i] && f.c >> i & 1) dis = false; if (dis) { for (size_t i = 0; i < v.size(); i++) if (f.c >> i & 1) v[i] = 1; return mkWord(v); } }
  if (f.t.size() == 1) { auto &v = words[f.t[0].first]; int un = -1, cnt = 0; uint64_t k = 0; for (size_t i = 0; i < v.size(); i++) { if (v[i] > 1) { un = i; cnt++; } else k |= (uint64_t)v[i] << i; }
    if (cnt == 1) { B b = v[un]; uint64_t z = f.c + f.t[0].second * k, o = f.c + f.t[0].second * (k | 1ull << un); vector<B> r(f.w); for (unsigned i = 0; i < f.w; i++) { int zi = z >> i & 1, oi = o >> i & 1; r[i] = zi == oi ? zi : oi ? b : b ^ 1; } return mkWord(r); } }
  unsigned lead = f.w, tail = f.w; uint64_t lv = 0; for (auto &p : f.t) { auto &v = words[p.first]; unsigned z = 0; while (z < v.size() && !v[z]) z++; tail = std::min(tail, z + (unsigned)__builtin_ctzll(p.second)); } // trailing bits are those of the constant
  { // leading bits every value of the sum has
    typedef __int128 I; I lo = 0, hi = 0; for (auto &p : f.t) { uint64_t m = 0; auto &v = words[p.first]; for (size_t i = 0; i < v.size() && i < 64; i++) if (v[i]) m |= 1ull << i; int64_t k = f.w < 64 ? (int64_t)(p.second << (64 - f.w)) >> (64 - f.w) : (int64_t)p.second; if (k > 256 || k < -256) { hi = (I)1 << 70; break; } (k > 0 ? hi : lo) += (I)k * m; }
    if (hi - lo <= (I)mask(f.w)) { uint64_t l = (uint64_t)(lo + f.c) & mask(f.w); I h = (I)l + (hi - lo); if (h <= (I)mask(f.w)) { uint64_t x = l ^ (uint64_t)h; lead = x ? 64 - __builtin_clzll(x) : 0; lv = lead < 64 ? l >> lead << lead : 0; } } }
  if (tail < lead) lv |= f.c & (tail ? mask(tail) : 0);
  if (lv) { LF g = f; g.c -= lv; auto v = words[mkLF(g)]; for (unsigned i = 0; i < f.w; i++) if (lv >> i & 1) v[i] = 1; W r = mkWord(v); lfOf.emplace(r, f); return r; }
  vector<uint32_t> a = {(uint32_t)f.c, (uint32_t)(f.c >> 32)}; for (auto &p : f.t) { a.push_back(p.first); a.push_back((uint32_t)p.second); a.push_back((uint32_t)(p.second >> 32)); }
  W r = nodeWord(mkNode(ADD, f.w, 0, a), f.w); if (lead < f.w || tail) { auto v = words[r]; for (unsigned i = 0; i < f.w; i++) if (i >= lead || i < tail) v[i] = 0; r = mkWord(v); }
  unsigned h = f.w / 2; bool fit = h >= 8 && (!(f.c >> h) || f.c >> h == mask(h)); for (auto &p : f.t) { auto &v = words[p.first]; for (size_t i = h; fit && i < v.size(); i++) if (v[i]) fit = false; }
  if (fit) { LF g = {h, f.c, {}}; for (auto &p : f.t) { W x = trunc_(p.first, h); LF q = asLF(x, h); g.c += q.c * p.second; for (auto &z : q.t) g.t.push_back({z.first, z.second * p.second}); } auto lo = words[mkLF(g)]; auto v = words[r]; for (unsigned i = 0; i < h; i++) v[i] = lo[i]; r = mkWord(v); } // the low half of a sum of half-width terms is the half-width sum
  lfOf.emplace(r, f); return r; }
static LF asLF(W x, unsigned w) { uint64_t c; if (isConst(x, &c)) return {w, c, {}}; auto it = lfOf.find(x); if (it != lfOf.end() && it->second.w == w) return it->second;
  c = 0; auto v = words[x]; for (size_t i = 0; i < v.size() && i < 64; i++) if (v[i] == 1) { c |= 1ull << i; v[i] = 0; } if (c) { W y = mkWord(v); it = lfOf.find(y); if (it != lfOf.end() && it->second.w == w) { LF f = it->second; f.c += c; return f; } return {w, c, {{y, 1}}}; } // known bits belong to the constant
  return {w, 0, {{x, 1}}}; }
static W add(W a, W b, unsigned w, bool sub) {
  auto &x = words[a], &y = words[b]; bool dis = !sub; for (unsigned i = 0; dis && i < w; i++) if (x[i] && y[i]) dis = false;
  if (dis) { vector<B> v(w); for (unsigned i = 0; i < w; i++) v[i] = x[i] | y[i]; return mkWord(v); }
  LF f = asLF(a, w), g = asLF(b, w); if (sub) { f.c -= g.c; for (auto &p : g.t) f.t.push_back({p.first, 0 - p.second}); } else { f.c += g.c; for (auto &p : g.t) f.t.push_back(p); } return mkLF(f); }
static W shl(W a, unsigned s, unsigned w) { auto x = words[a]; vector<B> v(w, 0); for (unsigned i = s; i < w; i++) v[i] = x[i - s]; return mkWord(v); }
static W shr(W a, unsigned s, unsigned w, bool ar) { auto x = words[a]; vector<B> v(w, ar ? x[w - 1] : 0); for (unsigned i = 0; i + s < w; i++) v[i] = x[i + s]; return mkWord(v); }
static W rol(W a, unsigned s, unsigned w) { auto x = words[a]; vector<B> v(w); s %= w; for (unsigned i = 0; i < w; i++) v[(i + s) % w] = x[i]; return mkWord(v); }
static W rolv(W a, W amt, unsigned w, bool right) { // amt: word of log2(w) bits
  unsigned lg = w == 8 ? 3 : w == 16 ? 4 : w == 32 ? 5 : 6; if (right) amt = add(cw(0, lg), amt, lg, true); auto it = rolOf.find(a); W base = a; if (it != rolOf.end()) { base = it->second.first; amt = add(amt, it->second.second, lg, false); }
  uint64_t c; if (isConst(amt, &c)) return rol(base, c, w); W r = nodeWord(mkNode(ROLV, w, 0, {base, amt}), w); rolOf[r] = {base, amt}; return r; }
static W zext(W a, unsigned w) { auto v = words[a]; v.resize(w, 0); return mkWord(v); }
static W sext(W a, unsigned w) { auto v = words[a]; B t = v.back(); v.resize(w, t); return mkWord(v); }
// a sum of narrow terms computed in a wider type: the narrow sum is its name
static bool narrow(const LF &f, unsigned w) { for (auto &p : f.t) { auto &v = words[p.first]; for (size_t i = w + w / 2; i < v.size(); i++) if (v[i]) return false; } return true; }
static W trunc_(W x, unsigned w) { if (words[x].size() == w) return x; auto it = lfOf.find(x); if (it != lfOf.end() && narrow(it->second, w)) { LF f = it->second, g; g.w = w; g.c = f.c; for (auto &p : f.t) g.t.push_back({trunc_(p.first, w), p.second}); // terms may themselves be sums now
    LF h = {w, g.c, {}}; for (auto &p : g.t) { LF q = asLF(p.first, w); h.c += q.c * p.second; for (auto &z : q.t) h.t.push_back({z.first, z.second * p.second}); } return mkLF(h); }
  auto v = words[x]; v.resize(w); return mkWord(v); }
static bool lowMask(W b, unsigned &n) { uint64_t c; if (!isConst(b, &c)) return false; n = 0; while (n < 64 && (c >> n & 1)) n++; return n > 0 && n < 64 && !(c >> n) ; }
static W bitop(char o, W a, W b, unsigned w) {
  if (o == '&') { unsigned n; if (lowMask(b, n) && n >= 5 && n < w && lfOf.count(a)) return zext(trunc_(a, n), w); if (lowMask(a, n) && n >= 5 && n < w && lfOf.count(b)) return zext(trunc_(b, n), w); }
  vector<B> x = words[a], y = words[b], v(w); for (unsigned i = 0; i < w; i++) v[i] = o == '^' ? bx(x[i], y[i]) : o == '&' ? band(x[i], y[i]) : band(x[i] ^ 1, y[i] ^ 1) ^ 1; return mkWord(v); }
static W mul(W a, W b, unsigned w) { uint64_t c; if (isConst(a)) std::swap(a, b); if (isConst(b, &c)) { c &= mask(w); if (c && !(c & (c - 1))) return shl(a, __builtin_ctzll(c), w); LF f = asLF(a, w); f.c *= c; for (auto &p : f.t) p.second *= c; return mkLF(f); }
  for (int s = 0; s < 2; s++, std::swap(a, b)) { auto x = words[a]; int un = -1, cnt = 0; for (unsigned i = 0; i < w; i++) if (x[i]) { cnt++; un = i; } if (cnt == 1) { auto y = words[shl(b, un, w)]; vector<B> v(w); for (unsigned i = 0; i < w; i++) v[i] = band(x[un], y[i]); return mkWord(v); } }
  if (a > b) std::swap(a, b); return nodeWord(mkNode(MUL, w, 0, {a, b}), w); }
static W op2_(Op o, W a, W b, unsigned w) { return nodeWord(mkNode(o, w, 0, {a, b}), w); }
static W zext(W a, unsigned w);
// (x << y) | (x >> z) with y + z = 0 mod w is a rotation (z may be w - y: a shift by w leaves x for y = 0)
static W rotIdiom(W a, W b, unsigned w) {
  if (w != 8 && w != 16 && w != 32 && w != 64) return 0; auto i = shOf.find(a), j = shOf.find(b); if (i == shOf.end() || j == shOf.end() || i->second.first == j->second.first || i->second.second.first != j->second.second.first) return 0;
  unsigned lg = w == 8 ? 3 : w == 16 ? 4 : w == 32 ? 5 : 6; W y = i->second.second.second, z = j->second.second.second; auto small = [&](W q) { auto &v = words[q]; for (size_t k = lg; k < v.size(); k++) if (v[k]) return false; return true; };
  bool sy = small(y), sz = small(z); if (!sy && !sz) return 0; uint64_t c; if (!isConst(add(trunc_(y, lg), trunc_(z, lg), lg, false), &c) || c) return 0;
  if (!sy && y != add(cw(w, words[z].size()), z, words[z].size(), true)) return 0; if (!sz && z != add(cw(w, words[y].size()), y, words[y].size(), true)) return 0;
  bool left = i->second.first == SHLV; return rolv(i->second.second.first, trunc_(left ? y : z, lg), w, false); }
static W op2(Op o, W a, W b, unsigned w) { W r = op2_(o, a, b, w); if (o == SHLV || o == SHRV) shOf[r] = {o, {a, b}}; return r; }
static B eqz(W x) { auto &v = words[x]; int un = 0; B b = 0; for (B i : v) { if (i == 1) return 0; if (i) { un++; b = i; } } if (!un) return 1; if (un == 1) return b ^ 1; return atomBit(mkNode(EQZ, 1, 0, {x}), 0); }
static W bits1(B b) { return mkWord({b}); }
static W sel(B c, W a, W b) { if (!a || !b) return 0; if (a == b) return a; auto x = words[a], y = words[b]; if (x.size() != y.size()) return 0; vector<B> v(x.size()); for (size_t i = 0; i < v.size(); i++) v[i] = bx(y[i], band(c, bx(x[i], y[i]))); return mkWord(v); }
static const vector<W> &splitBytes(W x) { auto it = bytesOf.find(x); if (it != bytesOf.end()) return it->second; vector<W> r; auto v = words[x]; for (size_t i = 0; i < v.size(); i += 8) { vector<B> b(8, 0); for (size_t j = 0; j < 8 && i + j < v.size(); j++) b[j] = v[i + j]; W y = mkWord(b); r.push_back(y); if (v.size() > 8) originOf[y] = {x, (int)(i / 8)}; } return bytesOf[x] = r; }
static W concat(const vector<W> &b) { // little-endian bytes
  if (b.size() == 1) return b[0]; auto o = originOf.find(b[0]); if (o != originOf.end() && o->second.second == 0) { auto &s = bytesOf[o->second.first]; if (s == b) return o->second.first; }
  vector<B> v; v.reserve(b.size() * 8); for (W x : b) v.insert(v.end(), words[x].begin(), words[x].end()); return mkWord(v); }
// table read: off = byte offset word; value of the table for each offset given by get(offset, bytes) ; result sz bytes
// tries boolean functions of at most KMAX unknown bits when all entries are constants
static bool unknownBits(W off, vector<uint32_t> &u) { std::vector<W> ws; auto it = lfOf.find(off); if (it != lfOf.end()) for (auto &p : it->second.t) ws.push_back(p.first); else ws.push_back(off); for (W x : ws) for (B b : words[x]) if (b > 1 && std::find(u.begin(), u.end(), b >> 1) == u.end()) { u.push_back(b >> 1); if (u.size() > (size_t)KMAX) return false; } return true; }
static uint64_t evalUnder(W x, const std::unordered_map<uint32_t, int> &val) { auto it = lfOf.find(x); if (it != lfOf.end()) { uint64_t r = it->second.c; for (auto &p : it->second.t) r += p.second * evalUnder(p.first, val); return r & mask(it->second.w); } uint64_t r = 0; auto &v = words[x]; for (size_t i = 0; i < v.size(); i++) { int b = v[i] & 1; if (v[i] > 1) b ^= val.at(v[i] >> 1); r |= (uint64_t)b << i; } return r; }
template <class F> static W lut(W off, unsigned sz, F get) {
  vector<uint32_t> u; if (!unknownBits(off, u)) return 0; int nb = u.size(); uint32_t d = 0; for (uint32_t s : u) d = std::max(d, setDepth[s]);
  Basis bs; vector<TT> t; bool comp = d > 0 && express(u, d, nb, bs, t);
  if (!comp) { bs = Basis(); t.clear(); vector<uint64_t> m(nb); for (int i = 0; i < nb; i++) bs.add(u[i], m[i], KMAX); int k = bs.u.size(); for (int i = 0; i < nb; i++) { TT z(ttWords(k)); for (int j = 0; j < k; j++) if (m[i] >> j & 1) ttXor(z, ttVar(j, k)); t.push_back(z); } }
  int k = bs.u.size(); vector<TT> out(sz * 8, TT(ttWords(k))); std::unordered_map<uint32_t, int> val;
  for (unsigned x = 0; x < 1u << k; x++) { for (int i = 0; i < nb; i++) val[u[i]] = ttGet(t[i], x); uint64_t o = evalUnder(off, val), e = 0; if (!get(o, e)) return 0; for (unsigned j = 0; j < sz * 8; j++) if (e >> j & 1) out[j][x >> 6] |= 1ull << (x & 63); }
  vector<B> v(sz * 8); for (unsigned j = 0; j < sz * 8; j++) v[j] = fromTT(bs.u, out[j]); return mkWord(v); }
// ---------------------------------------------------------------- witness of a difference
static uint64_t mix(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; x ^= x >> 33; return x; }
struct Eval { uint64_t seed; vector<vector<uint64_t>> val; vector<char> done;
  int atom(uint32_t a) { uint32_t n = atomNode[a], b = a - nodes[n].atom; return val[n][b >> 6] >> (b & 63) & 1; }
  int set(uint32_t s) { int r = 0; for (uint32_t a : sets[s]) r ^= atom(a); return r; }
  int bit(B b) { return set(b >> 1) ^ (b & 1); }
  uint64_t word(W x) { uint64_t r = 0; auto &v = words[x]; for (size_t i = 0; i < v.size() && i < 64; i++) r |= (uint64_t)bit(v[i]) << i; return r; }
  static void needSet(uint32_t s, vector<char> &need) { for (uint32_t a : sets[s]) need[atomNode[a]] = 1; }
  static void needWord(W x, vector<char> &need) { for (B b : words[x]) needSet(b >> 1, need); }
  static uint64_t h(uint64_t a, uint64_t b) { return mix(a ^ mix(b + 0x9E3779B97F4A7C15ull)); }
  vector<uint8_t> bytes(const vector<W> &b, size_t from, size_t n) { vector<uint8_t> r; for (size_t i = 0; i < n; i++) r.push_back(word(b[from + i])); return r; }
  static uint64_t hb(uint64_t s, const uint8_t *p, size_t n) { uint64_t x = h(s, n); for (size_t i = 0; i < n; i++) x = h(x, p[i]); return x; }
  static void feistel(uint64_t key, vector<uint8_t> &b, bool inv) { size_t n = b.size(), l = n / 2; for (int q = 0; q < 4; q++) { int r = inv ? 3 - q : q; uint8_t *src = r & 1 ? &b[0] : &b[l]; size_t sl = r & 1 ? l : n - l; uint8_t *dst = r & 1 ? &b[l] : &b[0]; size_t dl = r & 1 ? n - l : l; uint64_t x = hb(h(key, r), src, sl); for (size_t i = 0; i < dl; i++) dst[i] ^= (uint8_t)(h(x, i)); } }
  void run(const vector<uint32_t> &roots) { // node ids grow from arguments to users
    vector<char> need(nodes.size(), 0); for (uint32_t r : roots) need[r] = 1;
    for (size_t n = nodes.size(); n-- > 0;) if (need[n]) { Node &N = nodes[n]; switch (N.op) { case INPUT: case FRESH: break; case FN: case PROD: case BIG: for (uint32_t s : N.a) needSet(s, need); break; case ADD: for (size_t i = 2; i < N.a.size(); i += 3) needWord(N.a[i], need); break; case UF: case UFINV: for (size_t i = 1; i < N.a.size(); i++) needWord(N.a[i], need); break; case UPD: needWord(N.a[0], need); needWord(N.a[2], need); needWord(N.a[3], need); break; case SEL: needWord(N.a[0], need); for (W x : tabs[N.a[3]]) needWord(x, need); break; default: for (uint32_t x : N.a) needWord(x, need); } }
    val.assign(nodes.size(), {});
    for (size_t n = 0; n < nodes.size(); n++) if (need[n]) { Node &N = nodes[n]; vector<uint64_t> r((N.w + 63) / 64 + !N.w); unsigned w = N.w; uint64_t m = mask(w);
      switch (N.op) {
        case INPUT: { uint64_t x = h(h(seed, N.aux), N.a[0]); r[0] = seed == 1 ? 0 : seed == 2 ? ~0ull : seed == 3 ? x & h(x, 3) & h(x, 4) : x; r[0] &= m; break; }
        case FRESH: r[0] = h(seed, n) & m; break;
        case ADD: { uint64_t s = N.a[0] | (uint64_t)N.a[1] << 32; for (size_t i = 2; i < N.a.size(); i += 3) s += word(N.a[i]) * (N.a[i + 1] | (uint64_t)N.a[i + 2] << 32); r[0] = s & m; break; }
        case MUL: r[0] = word(N.a[0]) * word(N.a[1]) & m; break;
        case ROLV: { uint64_t x = word(N.a[0]); unsigned s = word(N.a[1]) % w; r[0] = s ? ((x << s) | (x >> (w - s))) & m : x; break; }
        case SHLV: { uint64_t s = word(N.a[1]); r[0] = s < w ? (word(N.a[0]) << s) & m : 0; break; }
        case SHRV: { uint64_t s = word(N.a[1]); r[0] = s < w ? word(N.a[0]) >> s : 0; break; }
        case SARV: { uint64_t s = word(N.a[1]); int64_t x = word(N.a[0]); if (w < 64) x = (int64_t)((uint64_t)x << (64 - w)) >> (64 - w); r[0] = s < w ? (uint64_t)(x >> s) & m : 0; break; }
        case UDIV: { uint64_t d = word(N.a[1]); r[0] = d ? word(N.a[0]) / d : 0; break; }
        case UREM: { uint64_t d = word(N.a[1]); r[0] = d ? word(N.a[0]) % d : 0; break; }
        case EQZ: r[0] = word(N.a[0]) == 0; break;
        case ULT: r[0] = word(N.a[0]) < word(N.a[1]); break;
        case SLT: { unsigned z = words[N.a[0]].size(); auto sg = [&](uint64_t x) { return z < 64 ? (int64_t)(x << (64 - z)) >> (64 - z) : (int64_t)x; }; r[0] = sg(word(N.a[0])) < sg(word(N.a[1])); break; }
        case FN: { unsigned y = 0; for (size_t i = 0; i < N.a.size(); i++) if (set(N.a[i])) y |= 1u << i; r[0] = ttGet(N.tt, y); break; }
        case PROD: { r[0] = 1; for (uint32_t s : N.a) r[0] &= set(s); break; }
        case BIG: r[0] = set(N.a[0]); break;
        case SEL: { uint64_t o = word(N.a[0]); int64_t i = ((int64_t)o - (int64_t)N.a[1]) / (int64_t)N.a[2]; auto &t = tabs[N.a[3]]; if (i >= 0 && (size_t)i < t.size()) r[0] = word(t[i]) & m; break; }
        case UPD: r[0] = (word(N.a[0]) == N.a[1] ? word(N.a[2]) : word(N.a[3])) & m; break;
        case UF: case UFINV: { uint32_t np = N.a[0]; // np parameter bytes, then data
          vector<uint8_t> p, d; for (size_t i = 1; i < N.a.size(); i++) (i <= np ? p : d).push_back(word(N.a[i])); uint64_t k = hb(h(77, N.aux >> 1), p.data(), p.size());
          vector<uint8_t> o; if (N.aux & 1) { o = d; feistel(k, o, N.op == UFINV); } else { uint64_t x = hb(k, d.data(), d.size()); for (unsigned i = 0; i < w / 8; i++) o.push_back(h(x, i)); }
          for (unsigned i = 0; i < o.size() && i < w / 8; i++) r[i / 8] |= (uint64_t)o[i] << (8 * (i % 8)); break; } }
      val[n] = r; } } };
// debugging aid: the first two nodes of equal value and different name
static std::string show(W x, int d); static std::string showSet(uint32_t s, int d) { std::string r; for (uint32_t a : sets[s]) { if (!r.empty()) r += "^"; uint32_t n = atomNode[a]; r += "n" + std::to_string(n) + "." + std::to_string(a - nodes[n].atom); } return r; }
static std::string show(W x, int d) { std::string r; auto &v = words[x]; uint64_t c; if (isConst(x, &c)) return "#" + std::to_string(c); r = "{"; for (size_t i = 0; i < v.size() && i < 64; i++) r += (i ? " " : "") + std::string(v[i] & 1 ? "!" : "") + (v[i] > 1 ? showSet(v[i] >> 1, d) : ""); return r + "}"; }
static void dbg(const vector<uint32_t> &roots) { static const char *on[] = {"INPUT", "ADD", "MUL", "ROLV", "SHLV", "SHRV", "SARV", "UDIV", "UREM", "SEL", "UPD", "EQZ", "ULT", "SLT", "FN", "PROD", "UF", "UFINV", "BIG", "FRESH"};
  vector<Eval> e(5); for (int i = 0; i < 5; i++) { e[i].seed = 4 + i; e[i].run(roots); } std::unordered_map<vector<uint32_t>, uint32_t, H> m; int c = 0; unsigned minw = atoi(getenv("KAI_VNDBG")); for (int i = 5; minw == 1 && i < 150; i++) { e.push_back(Eval()); e[i].seed = 4 + i; e[i].run(roots); }
  for (size_t n = 0; n < nodes.size() && c < 3; n++) if (!e[0].val[n].empty() && nodes[n].w >= minw) { vector<uint32_t> k = {nodes[n].w}; for (auto &q : e) for (uint64_t x : q.val[n]) { k.push_back(x); k.push_back(x >> 32); } auto it = m.find(k); if (it == m.end()) { m[k] = n; continue; } c++;
    for (uint32_t z : {it->second, (uint32_t)n}) { Node &N = nodes[z]; fprintf(stderr, "n%u %s w%u:", z, on[N.op], N.w); if (N.op == ADD) { fprintf(stderr, " c=%llx", (unsigned long long)(N.a[0] | (uint64_t)N.a[1] << 32)); for (size_t i = 2; i < N.a.size(); i += 3) fprintf(stderr, "\n   %lld * w%u %s", (long long)(N.a[i + 1] | (uint64_t)N.a[i + 2] << 32), N.a[i], show(N.a[i], 0).c_str()); } else if (N.op != FN && N.op != PROD && N.op != BIG && N.op != UF) for (uint32_t x : N.a) if (x < words.size()) fprintf(stderr, "\n   %s", show(x, 0).c_str()); fprintf(stderr, "\n"); } } }
// 1: equal by normal form, 0: a valuation of the value graphs separates them, -1: open
static int compare(W a, W b) { if (!a || !b) return -1; if (a == b) return 1; vector<uint32_t> roots; for (W x : {a, b}) for (B q : words[x]) for (uint32_t at : sets[q >> 1]) roots.push_back(atomNode[at]);
  for (uint64_t s = 1; s <= 8; s++) { Eval e; e.seed = s; e.run(roots); if (e.word(a) != e.word(b)) return 0; } static bool d = getenv("KAI_VNDBG"); if (d) { dbg(roots); exit(9); } return -1; }
}
#endif
