// An independent decision-diagram engine: the reference for trees beyond truth tables.
// Reads:  n m t maxnodes / n probabilities / m gates "op k k2 nargs args" / t queries "gate limit prime maxlist nmif vars...".
// An argument is an integer: variable i is i, gate j is n + j, the constants are -1 (false) and -2 (true) in the form "sX" with the
// sign s '+' or '-' (complement).  Writes one block per query.
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

using u32 = uint32_t;
using u64 = uint64_t;

static size_t g_max_nodes;
static void overflow() {
  std::printf("OVERFLOW\n");
  std::fflush(stdout);
  std::_Exit(0);
}

struct Node {
  u32 var, lo, hi;
};

struct Hash3 {
  size_t operator()(const Node& n) const {
    u64 x = n.var * 0x9E3779B97F4A7C15ull;
    x ^= (u64(n.lo) << 32 | n.hi) + 0x7F4A7C159E3779B9ull + (x << 6) + (x >> 2);
    x *= 0xFF51AFD7ED558CCDull;
    return x ^ x >> 33;
  }
};
struct Eq3 {
  bool operator()(const Node& a, const Node& b) const { return a.var == b.var && a.lo == b.lo && a.hi == b.hi; }
};

const u32 TERM = ~0u;

struct Dag {  // 0 and 1 are the terminals.
  std::vector<Node> nodes{{TERM, 0, 0}, {TERM, 1, 1}};
  std::unordered_map<Node, u32, Hash3, Eq3> unique;
  std::unordered_map<Node, u32, Hash3, Eq3> cache;
  u32 var(u32 x) const { return nodes[x].var; }
  u32 node(u32 v, u32 lo, u32 hi) {
    auto it = unique.try_emplace(Node{v, lo, hi}, nodes.size());
    if (it.second) {
      nodes.push_back({v, lo, hi});
      if (nodes.size() > g_max_nodes)
        overflow();
    }
    return it.first->second;
  }
  u32 lo(u32 x, u32 v) const { return nodes[x].var == v ? nodes[x].lo : x; }
};

struct Bdd : Dag {
  u32 mk(u32 v, u32 lo, u32 hi) { return lo == hi ? lo : node(v, lo, hi); }
  u32 ite(u32 f, u32 g, u32 h) {
    if (f == 1) return g;
    if (f == 0) return h;
    if (g == h) return g;
    if (g == 1 && h == 0) return f;
    Node key{f, g, h};
    auto it = cache.find(key);
    if (it != cache.end()) return it->second;
    u32 v = std::min(var(f), std::min(var(g), var(h)));
    auto l = [&](u32 x) { return var(x) == v ? nodes[x].lo : x; };
    auto r = [&](u32 x) { return var(x) == v ? nodes[x].hi : x; };
    u32 a = ite(l(f), l(g), l(h));
    u32 b = ite(r(f), r(g), r(h));
    u32 q = mk(v, a, b);
    if (cache.size() > 8 * g_max_nodes) overflow();
    cache.emplace(key, q);
    return q;
  }
  u32 neg(u32 f) { return ite(f, 0, 1); }
  u32 land(u32 f, u32 g) { return ite(f, g, 0); }
  u32 lor(u32 f, u32 g) { return ite(f, 1, g); }
};

// Families of sets of literals: the literal of variable v is 2v (positive) and 2v + 1 (negative).
struct Zdd : Dag {
  std::unordered_map<Node, u32, Hash3, Eq3> c2;
  u32 mk(u32 v, u32 lo, u32 hi) { return hi == 0 ? lo : node(v, lo, hi); }
  enum { UNI, DIF, WITHOUT };
  u32 op(u32 o, u32 a, u32 b) {
    if (o == UNI) {
      if (a == b || b == 0) return a;
      if (a == 0) return b;
      if (a > b) std::swap(a, b);
    } else if (o == DIF) {
      if (a == 0 || a == b) return 0;
      if (b == 0) return a;
    } else {  // The sets of a that contain no set of b.
      if (a == 0 || b == 1 || a == b) return 0;
      if (b == 0) return a;
      if (a == 1) {  // Contains a set of b only if b has the empty set.
        u32 x = b;
        while (x > 1) x = nodes[x].lo;
        return x == 1 ? 0 : 1;
      }
    }
    Node key{o, a, b};
    auto it = c2.find(key);
    if (it != c2.end()) return it->second;
    u32 v = std::min(var(a), var(b));
    u32 a0 = var(a) == v ? nodes[a].lo : a, a1 = var(a) == v ? nodes[a].hi : 0;
    u32 b0 = var(b) == v ? nodes[b].lo : b, b1 = var(b) == v ? nodes[b].hi : 0;
    u32 q;
    if (o == WITHOUT) {
      u32 lo = op(o, a0, b0);
      u32 hi = op(o, op(o, a1, b0), b1);
      q = mk(v, lo, hi);
    } else {
      u32 lo = op(o, a0, b0);
      u32 hi = op(o, a1, b1);
      q = mk(v, lo, hi);
    }
    if (c2.size() > 8 * g_max_nodes) overflow();
    c2.emplace(key, q);
    return q;
  }
};

static Bdd B;
static Zdd Z;
static std::unordered_map<u32, u32> g_min, g_prime;

static u32 minimal(u32 f) {  // The minimal true points as sets of variables.
  if (f < 2) return f;
  auto it = g_min.find(f);
  if (it != g_min.end()) return it->second;
  Node n = B.nodes[f];
  u32 m0 = minimal(n.lo);
  u32 m1 = Z.op(Zdd::WITHOUT, minimal(n.hi), m0);
  return g_min[f] = Z.mk(2 * n.var, m0, m1);
}

static u32 prime(u32 f) {
  if (f < 2) return f;
  auto it = g_prime.find(f);
  if (it != g_prime.end()) return it->second;
  Node n = B.nodes[f];
  u32 c = prime(B.land(n.lo, n.hi));
  u32 p1 = Z.op(Zdd::DIF, prime(n.hi), c);
  u32 p0 = Z.op(Zdd::DIF, prime(n.lo), c);
  return g_prime[f] = Z.mk(2 * n.var, Z.mk(2 * n.var + 1, c, p0), p1);
}

static double count(u32 z, std::unordered_map<u32, double>& memo) {
  if (z < 2) return z;
  auto it = memo.find(z);
  if (it != memo.end()) return it->second;
  Node n = Z.nodes[z];
  double r = count(n.lo, memo) + count(n.hi, memo);
  memo[z] = r;
  return r;
}

static double count_k(u32 z, int k, std::map<std::pair<u32, int>, double>& memo) {  // Sets of at most k literals.
  if (k < 0 || z == 0) return 0;
  if (z == 1) return 1;
  auto key = std::make_pair(z, k);
  auto it = memo.find(key);
  if (it != memo.end()) return it->second;
  Node n = Z.nodes[z];
  double r = count_k(n.lo, k, memo) + count_k(n.hi, k - 1, memo);
  memo[key] = r;
  return r;
}

static std::vector<double> P;
static std::vector<u32> g_level, g_var;  // variable -> level, level -> variable

static double prob(u32 f, int fix_level, double fix, std::unordered_map<u32, double>& memo) {
  if (f < 2) return f;
  auto it = memo.find(f);
  if (it != memo.end()) return it->second;
  Node n = B.nodes[f];
  double p = int(n.var) == fix_level ? fix : P[g_var[n.var]];
  double a = prob(n.hi, fix_level, fix, memo), b = prob(n.lo, fix_level, fix, memo);
  return memo[f] = p * a + (1 - p) * b;
}

static std::vector<u32> g_path;
static void list(u32 z, int k) {
  if (z == 0 || k < 0) return;
  if (z == 1) {
    std::string s;
    for (u32 l : g_path) {
      s += (l & 1) ? " -" : " +";
      s += std::to_string(g_var[l / 2]);
    }
    std::printf("S%s\n", s.c_str());
    return;
  }
  Node n = Z.nodes[z];
  list(n.lo, k);
  if (k > 0) {
    g_path.push_back(n.var);
    list(n.hi, k - 1);
    g_path.pop_back();
  }
}

struct G {
  std::string op;
  int k, k2;
  std::vector<std::pair<bool, int>> args;
};

int main() {
  int n, m, t;
  std::cin >> n >> m >> t >> g_max_nodes;
  P.resize(n);
  for (double& p : P) {
    std::string s;
    std::cin >> s;
    p = std::strtod(s.c_str(), nullptr);
  }
  std::vector<G> gates(m);
  for (G& g : gates) {
    int c;
    std::cin >> g.op >> g.k >> g.k2 >> c;
    for (int i = 0; i < c; ++i) {
      std::string s;
      std::cin >> s;
      g.args.emplace_back(s[0] == '-', std::atoi(s.c_str() + 1));
    }
  }
  struct Q {
    int gate, limit, prime;
    double maxlist;
    std::vector<int> mif;
  };
  std::vector<Q> qs(t);
  for (Q& q : qs) {
    int c;
    std::cin >> q.gate >> q.limit >> q.prime >> q.maxlist >> c;
    q.mif.resize(c);
    for (int& x : q.mif)
      std::cin >> x;
  }
  if (!std::cin) {
    std::printf("BADINPUT\n");
    return 2;
  }
  // Depth-first order of the first occurrences.
  g_level.assign(n, ~0u);
  {
    std::vector<char> seen(m);
    std::vector<std::pair<int, size_t>> st;
    auto visit = [&](int root) {
      if (seen[root]) return;
      seen[root] = 1;
      st.push_back({root, 0});
      while (!st.empty()) {
        int g = st.back().first;
        size_t i = st.back().second++;
        if (i >= gates[g].args.size()) {
          st.pop_back();
          continue;
        }
        int a = gates[g].args[i].second;
        if (a >= n) {
          if (!seen[a - n]) {
            seen[a - n] = 1;
            st.push_back({a - n, 0});
          }
        } else if (a >= 0 && g_level[a] == ~0u) {
          g_level[a] = g_var.size();
          g_var.push_back(a);
        }
      }
    };
    for (Q& q : qs)
      visit(q.gate);
  }
  std::vector<u32> val(m, ~0u);
  std::vector<std::pair<int, size_t>> st;
  auto arg = [&](std::pair<bool, int> a) {
    u32 f = a.second == -1 ? 0 : a.second == -2 ? 1 : a.second >= n ? val[a.second - n] : B.mk(g_level[a.second], 0, 1);
    return a.first ? B.neg(f) : f;
  };
  auto eval = [&](int gi) {
    const G& g = gates[gi];
    std::vector<u32> v;
    for (auto a : g.args)
      v.push_back(arg(a));
    u32 r;
    if (g.op == "and" || g.op == "nand") {
      r = 1;
      for (u32 x : v) r = B.land(r, x);
      if (g.op == "nand") r = B.neg(r);
    } else if (g.op == "or" || g.op == "nor") {
      r = 0;
      for (u32 x : v) r = B.lor(r, x);
      if (g.op == "nor") r = B.neg(r);
    } else if (g.op == "not") {
      r = B.neg(v[0]);
    } else if (g.op == "null") {
      r = v[0];
    } else if (g.op == "xor") {
      r = B.ite(v[0], B.neg(v[1]), v[1]);
    } else if (g.op == "iff") {
      r = B.ite(v[0], v[1], B.neg(v[1]));
    } else if (g.op == "imply") {
      r = B.ite(v[0], v[1], 1);
    } else if (g.op == "atleast" || g.op == "cardinality") {
      auto least = [&](int k) -> u32 {
        if (k <= 0) return 1;
        std::vector<u32> c(k + 1, 0);
        c[0] = 1;
        for (u32 x : v)
          for (int j = k; j > 0; --j)
            c[j] = B.lor(c[j], B.land(c[j - 1], x));
        return c[k];
      };
      r = least(g.k);
      if (g.op == "cardinality") r = B.land(r, B.neg(least(g.k2 + 1)));
    } else {
      std::printf("BADOP %s\n", g.op.c_str());
      std::_Exit(2);
    }
    val[gi] = r;
  };
  for (Q& q : qs) {
    if (val[q.gate] == ~0u) {
      st.push_back({q.gate, 0});
      while (!st.empty()) {
        int g = st.back().first;
        size_t i = st.back().second++;
        if (i < gates[g].args.size()) {
          int a = gates[g].args[i].second;
          if (a >= n && val[a - n] == ~0u) st.push_back({a - n, 0});
          continue;
        }
        st.pop_back();
        if (val[g] == ~0u) eval(g);
      }
    }
    u32 f = val[q.gate];
    std::unordered_map<u32, double> memo;
    std::printf("TOP %d p %.17g\n", q.gate, prob(f, -1, 0, memo));
    for (int x : q.mif) {
      if (g_level[x] == ~0u) {
        std::printf("MIF %d 0\n", x);
        continue;
      }
      std::unordered_map<u32, double> m1, m0;
      std::printf("MIF %d %.17g\n", x, prob(f, g_level[x], 1, m1) - prob(f, g_level[x], 0, m0));
    }
    if (q.prime >= 0) {
      u32 z = q.prime ? prime(f) : minimal(f);
      std::unordered_map<u32, double> cm;
      std::map<std::pair<u32, int>, double> ck;
      double all = count(z, cm);
      int lim = q.limit;
      double c = count_k(z, lim, ck);
      while (c > q.maxlist && lim > 0)  // The largest order with a listable number of sets.
        c = count_k(z, --lim, ck);
      std::printf("COUNT %.17g limit %d %.17g\n", all, lim, c);
      if (c <= q.maxlist) list(z, lim);
    }
    std::printf("END nodes %zu zdd %zu\n", B.nodes.size(), Z.nodes.size());
  }
  return 0;
}
