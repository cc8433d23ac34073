// Symbolic engine: expression DAG, polynomial normal form, path exploration, Z3 queries.
#include "hv.hpp"
#include "core.hpp"

#include <z3++.h>
#include <gmpxx.h>

#include <algorithm>
#include <cassert>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

namespace hs {

typedef std::chrono::steady_clock SC;
static double now() { return std::chrono::duration<double>(SC::now().time_since_epoch()).count(); }

// ---------------------------------------------------------------------------------------------- nodes
enum Op : uint8_t { CONST, VAR, ADD, MUL, DIV, ITE, SQRT, POW, UF, ACOS, ATAN2, TRIGC, TRIGS, FLOOR };
enum BOp : uint8_t { BTRUE, BFALSE, LT, LE, EQ, AND, OR, NOT, NEAR };

struct Node {
    Op op;
    int a, b, c;
    double k;         // CONST value; POW exponent if constant
    std::string name; // VAR, UF
};
struct BNode {
    BOp op;
    int a, b;
    double k;
};
static std::vector<Node> N;
static std::vector<BNode> B;
static std::unordered_map<std::string, int> nodeMap, bnodeMap;

static int mk(Op op, int a, int b, int c, double k, const std::string& name) {
    if (N.empty()) N.push_back(Node{CONST, 0, 0, 0, 0.0, ""});
    char buf[96];
    uint64_t bits;
    memcpy(&bits, &k, 8);
    snprintf(buf, sizeof buf, "%d,%d,%d,%d,%llx,", op, a, b, c, (unsigned long long)bits);
    std::string key = buf + name;
    auto it = nodeMap.find(key);
    if (it != nodeMap.end()) return it->second;
    N.push_back(Node{op, a, b, c, k, name});
    return nodeMap[key] = (int)N.size() - 1;
}
static int mkb(BOp op, int a, int b, double k = 0) {
    if (B.empty()) {
        B.push_back(BNode{BFALSE, 0, 0, 0});
        B.push_back(BNode{BTRUE, 0, 0, 0});
    }
    if (op == BFALSE) return 0;
    if (op == BTRUE) return 1;
    char buf[96];
    uint64_t bits;
    memcpy(&bits, &k, 8);
    snprintf(buf, sizeof buf, "%d,%d,%d,%llx", op, a, b, (unsigned long long)bits);
    auto it = bnodeMap.find(buf);
    if (it != bnodeMap.end()) return it->second;
    B.push_back(BNode{op, a, b, k});
    return bnodeMap[buf] = (int)B.size() - 1;
}
static int constNode(double v) { return mk(CONST, 0, 0, 0, v == 0 ? 0.0 : v, ""); }
static int idOf(const Sym& s) { return s.id ? s.id : constNode(s.c); }
static Sym fromId(int id) {
    if (N[id].op == CONST) return Sym(N[id].k);
    return Sym::node(id);
}

// ---------------------------------------------------------------------------------------------- rationals
static std::string decimalOf(double v) {  // shortest decimal that round-trips, as an exact rational string
    char buf[64];
    for (int p = 1; p <= 17; ++p) {
        snprintf(buf, sizeof buf, "%.*e", p - 1, v);
        if (strtod(buf, nullptr) == v) break;
    }
    return buf;
}
struct PathEnd {
    int kind;  // 0 pruned, 1 violation recorded, 2 incomplete
    std::string why;
};
static mpq_class toQ(double v) {
    if (!std::isfinite(v)) throw PathEnd{2, "infinite or undefined constant in a term"};
    static std::unordered_map<double, mpq_class> memo;
    auto it = memo.find(v);
    if (it != memo.end()) return it->second;
    std::string s = decimalOf(v);
    bool neg = s[0] == '-';
    if (neg) s = s.substr(1);
    size_t e = s.find('e');
    int ex = atoi(s.c_str() + e + 1);
    std::string m = s.substr(0, e);
    size_t dot = m.find('.');
    if (dot != std::string::npos) {
        ex -= (int)(m.size() - dot - 1);
        m.erase(dot, 1);
    }
    size_t nz = m.find_first_not_of('0');
    m = nz == std::string::npos ? "0" : m.substr(nz);
    mpz_class z(m, 10), p10;
    mpz_ui_pow_ui(p10.get_mpz_t(), 10, std::abs(ex));
    mpq_class q = ex >= 0 ? mpq_class(z * p10) : mpq_class(z, p10);
    q.canonicalize();
    if (neg) q = -q;
    return memo[v] = q;
}

// ---------------------------------------------------------------------------------------------- polynomials
typedef std::vector<std::pair<int, int>> Mono;  // (atom node id or inverse atom, exponent), sorted
typedef std::map<Mono, mpq_class> Poly;
typedef std::shared_ptr<const Poly> PolyP;
static size_t POLYCAP = 1500, MULCAP = 60000;
static std::map<int, Poly> squareRule;  // atom^2 -> poly
static std::map<std::pair<int, int>, Poly> productRule;  // product of two atoms -> poly
static std::set<int> productAtoms;
static std::unordered_map<int, PolyP> polyMemo;
static std::unordered_map<int, Poly> invPoly;  // atom 1/p -> p
static std::map<std::string, int> invAtoms;   // serialised poly -> DIV node 1/poly
static PolyP norm(int id);
static int polyToNode(const Poly& p);

static bool addTerm(Poly& p, const Mono& m, const mpq_class& k) {
    if (k == 0) return true;
    auto it = p.find(m);
    if (it == p.end())
        p.emplace(m, k);
    else {
        it->second += k;
        if (it->second == 0) p.erase(it);
    }
    return p.size() <= POLYCAP;
}
static bool mulInto(Poly& out, const Poly& a, const Poly& b);
static bool inverse(const Poly& b, Poly& inv);
static bool addMonoReduced(Poly& out, const Mono& m, const mpq_class& k) {
    for (size_t i = 0; i < m.size(); ++i) {
        if (m[i].second >= 2) {
            auto r = squareRule.find(m[i].first);
            if (r == squareRule.end() && N[m[i].first].op == SQRT) {
                PolyP arg = norm(N[m[i].first].a);
                if (!arg) continue;
                r = squareRule.emplace(m[i].first, *arg).first;
            }
            if (r != squareRule.end()) {
                Mono rest = m;
                rest[i].second -= 2;
                if (rest[i].second == 0) rest.erase(rest.begin() + i);
                Poly one;
                one.emplace(rest, k);
                Poly rule = r->second;
                return mulInto(out, one, rule);
            }
        }
        if (m[i].second < 0) {
            auto r = invPoly.find(m[i].first);
            if (r != invPoly.end()) {
                Mono rest = m;
                if (++rest[i].second == 0) rest.erase(rest.begin() + i);
                Poly one, p = r->second;
                one.emplace(rest, k);
                return mulInto(out, one, p);
            }
        }
        if (m[i].second >= 1 && productAtoms.count(m[i].first))
            for (size_t j = i + 1; j < m.size(); ++j) {
                if (m[j].second < 1) continue;
                auto r = productRule.find({m[i].first, m[j].first});
                if (r == productRule.end()) continue;
                Mono rest = m;
                if (--rest[j].second == 0) rest.erase(rest.begin() + j);
                if (--rest[i].second == 0) rest.erase(rest.begin() + i);
                Poly one, rule = r->second;
                one.emplace(rest, k);
                return mulInto(out, one, rule);
            }
        if (m[i].second <= -2 && N[m[i].first].op == SQRT) {
            PolyP arg = norm(N[m[i].first].a);
            Poly inv, one;
            if (!arg || !inverse(*arg, inv)) continue;
            Mono rest = m;
            rest[i].second += 2;
            if (rest[i].second == 0) rest.erase(rest.begin() + i);
            one.emplace(rest, k);
            return mulInto(out, one, inv);
        }
    }
    return addTerm(out, m, k);
}
static Mono mulMono(const Mono& a, const Mono& b) {
    Mono r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first))
            r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first)
            r.push_back(b[j++]);
        else {
            int e = a[i].second + b[j].second;
            if (e) r.emplace_back(a[i].first, e);
            ++i, ++j;
        }
    }
    return r;
}
static bool mulInto(Poly& out, const Poly& a, const Poly& b) {
    if (a.size() * b.size() > MULCAP) return false;
    if (a.size() * b.size() > 200 && now() > cfg.deadline) return false;
    for (auto& x : a)
        for (auto& y : b)
            if (!addMonoReduced(out, mulMono(x.first, y.first), x.second * y.second)) return false;
    return true;
}
static std::string ser(const Poly& p) {
    std::ostringstream o;
    for (auto& t : p) {
        o << t.second.get_str() << '*';
        for (auto& f : t.first) o << f.first << '^' << f.second << ' ';
        o << '+';
    }
    return o.str();
}
static PolyP atomPoly(int id) {
    auto p = std::make_shared<Poly>();
    p->emplace(Mono{{id, 1}}, 1);
    return p;
}
// 1/b: a Laurent monomial, or one atom per polynomial with leading coefficient 1
static bool inverse(const Poly& b, Poly& inv) {
    if (b.empty()) return false;
    if (b.size() == 1) {
        Mono m = b.begin()->first;
        for (auto& f : m) f.second = -f.second;
        inv.emplace(m, 1 / b.begin()->second);
        return true;
    }
    // 1/(p + q t) with a square root t: (p - q t)/(p^2 - q^2 t^2)
    if (b.size() <= 24) {
        int root = -1, low = 0;
        for (auto& t : b)
            for (auto& f : t.first)
                if (N[f.first].op == SQRT && f.first > root) root = f.first;
        if (root >= 0) {
            for (auto& t : b)
                for (auto& f : t.first)
                    if (f.first == root) low = std::min(low, f.second);
            Poly c, conj, den, r;
            bool ok = true;
            for (auto& t : b) ok = ok && addMonoReduced(c, low ? mulMono(t.first, Mono{{root, -low}}) : t.first, t.second);
            bool linear = false;
            for (auto& t : c) {
                bool has = false;
                for (auto& f : t.first) has = has || (f.first == root && f.second % 2);
                linear = linear || has;
                conj.emplace(t.first, has ? mpq_class(-t.second) : t.second);
            }
            if (ok && linear && c.size() > 1 && mulInto(den, c, conj) && !den.empty() && den.size() <= 60 && inverse(den, r)) {
                Poly q, one;
                one.emplace(low ? Mono{{root, -low}} : Mono{}, 1);
                Poly u;
                if (mulInto(q, conj, r) && mulInto(u, q, one)) {
                    inv.swap(u);
                    return true;
                }
            }
        }
    }
    mpq_class lead = b.begin()->second;
    Poly mon;
    for (auto& t : b) mon.emplace(t.first, t.second / lead);
    std::string key = ser(mon);
    auto f = invAtoms.find(key);
    int atom;
    if (f == invAtoms.end()) {
        int den = polyToNode(mon);
        atom = mk(DIV, constNode(1), den, 0, 0, "");
        polyMemo[den] = std::make_shared<Poly>(mon);
        invAtoms[key] = atom;
        polyMemo[atom] = atomPoly(atom);
        invPoly[atom] = mon;
    } else
        atom = f->second;
    inv.emplace(Mono{{atom, 1}}, 1 / lead);
    return true;
}
// Is the rational function zero wherever its divisors are not? Decided by clearing all divisors.
static bool zeroFraction(Poly p) {
    bool any = false;
    for (int round = 0; round < 40; ++round) {
        if (p.empty()) return true;
        int atom = -1, low = 0, high = 0;
        for (auto& t : p)
            for (auto& f : t.first)
                if (f.first > atom && (invPoly.count(f.first) ||
                                       (f.second < 0 && (squareRule.count(f.first) || N[f.first].op == SQRT))))
                    atom = f.first;
        if (atom < 0) return any && p.empty();
        any = true;
        for (auto& t : p)
            for (auto& f : t.first)
                if (f.first == atom) low = std::min(low, f.second), high = std::max(high, f.second);
        Poly out;
        auto inv = invPoly.find(atom);
        for (auto& t : p) {
            Mono m = t.first;
            int e = 0;
            for (size_t i = 0; i < m.size(); ++i)
                if (m[i].first == atom) {
                    e = m[i].second;
                    if (inv != invPoly.end())
                        m.erase(m.begin() + i);
                    else if (e == low)
                        m.erase(m.begin() + i);
                    else
                        m[i].second -= low;
                    break;
                }
            Poly term;
            if (inv == invPoly.end()) {
                if (e == 0 && low) m = mulMono(m, Mono{{atom, -low}});
                if (!addMonoReduced(out, m, t.second)) return false;
                continue;
            }
            term.emplace(m, t.second);
            for (int k = e; k < high; ++k) {
                Poly q;
                if (!mulInto(q, term, inv->second)) return false;
                term.swap(q);
            }
            for (auto& u : term)
                if (!addTerm(out, u.first, u.second)) return false;
        }
        p.swap(out);
    }
    return false;
}
static bool zeroFraction(const PolyP& p) {
    if (!p) return false;
    bool div = false;
    for (auto& t : *p)
        for (auto& f : t.first) div = div || f.second < 0 || invPoly.count(f.first);
    if (!div) return p->empty();
    std::string key = ser(*p);
    static std::unordered_map<std::string, bool> memo;
    auto it = memo.find(key);
    if (it != memo.end()) return it->second;
    return memo[key] = zeroFraction(*p);
}
static PolyP norm(int id) {
    auto it = polyMemo.find(id);
    if (it != polyMemo.end()) return it->second;
    const Node n = N[id];
    PolyP res;
    switch (n.op) {
        case CONST: {
            auto p = std::make_shared<Poly>();
            if (!std::isfinite(n.k)) break;
            if (n.k != 0) p->emplace(Mono{}, toQ(n.k));
            res = p;
            break;
        }
        case ADD: {
            PolyP a = norm(n.a), b = norm(n.b);
            if (!a || !b) break;
            auto p = std::make_shared<Poly>(*a);
            bool ok = true;
            for (auto& t : *b) ok = ok && addTerm(*p, t.first, t.second);
            if (ok) res = p;
            break;
        }
        case MUL: {
            PolyP a = norm(n.a), b = norm(n.b);
            if (!a || !b) break;
            auto p = std::make_shared<Poly>();
            if (mulInto(*p, *a, *b)) res = p;
            break;
        }
        case DIV: {
            PolyP a = norm(n.a), b = norm(n.b);
            if (!a || !b || b->empty()) break;
            if (a->size() == b->size() && b->size() > 1) {  // a = k*b ?
                mpq_class k = a->begin()->second / b->begin()->second;
                bool same = true;
                auto x = a->begin();
                for (auto y = b->begin(); y != b->end() && same; ++x, ++y)
                    same = x->first == y->first && x->second == k * y->second;
                if (same) {
                    auto p = std::make_shared<Poly>();
                    p->emplace(Mono{}, k);
                    res = p;
                    break;
                }
            }
            Poly inv;
            if (!inverse(*b, inv)) break;
            auto p = std::make_shared<Poly>();
            if (mulInto(*p, *a, inv)) res = p;
            break;
        }
        default: res = atomPoly(id);
    }
    return polyMemo[id] = res;
}
static double qToD(const mpq_class& q) {
    const double d = q.get_d();
    return std::isfinite(d) ? d : sgn(q) < 0 ? -std::numeric_limits<double>::max() : std::numeric_limits<double>::max();
}
static int powNode(int a, int e) {
    int r = a;
    for (int i = 1; i < e; ++i) r = mk(MUL, std::min(r, a), std::max(r, a), 0, 0, "");
    return r;
}
// mpq constants that are not doubles are kept exactly as num/den of doubles when possible, else as a named constant
static std::unordered_map<int, mpq_class> exactConst;
static int qNode(const mpq_class& q) {
    double d = qToD(q);
    if (toQ(d) == q) return constNode(d);
    int id = mk(UF, 0, 0, 0, 0, "q" + q.get_str());
    exactConst[id] = q;
    auto p = std::make_shared<Poly>();
    p->emplace(Mono{}, q);
    polyMemo[id] = p;
    return id;
}
static int polyToNode(const Poly& p) {
    int sum = -1;
    for (auto& t : p) {
        int num = -1, den = -1;
        for (auto& f : t.first) {
            int x = powNode(f.first, std::abs(f.second));
            int& tgt = f.second > 0 ? num : den;
            tgt = tgt < 0 ? x : mk(MUL, std::min(tgt, x), std::max(tgt, x), 0, 0, "");
        }
        int term;
        if (num < 0)
            term = qNode(t.second);
        else if (t.second == 1)
            term = num;
        else
            term = mk(MUL, qNode(t.second), num, 0, 0, "");
        if (den >= 0) term = mk(DIV, term, den, 0, 0, "");
        sum = sum < 0 ? term : mk(ADD, sum, term, 0, 0, "");
    }
    return sum < 0 ? constNode(0) : sum;
}
static bool polyConst(const PolyP& p, mpq_class& v) {
    if (!p) return false;
    if (p->empty()) {
        v = 0;
        return true;
    }
    if (p->size() == 1 && p->begin()->first.empty()) {
        v = p->begin()->second;
        return true;
    }
    return false;
}
static Sym simplify(const Sym& s) {
    if (s.isConst() || s.isPoison()) return s;
    PolyP p = norm(s.id);
    mpq_class v;
    if (polyConst(p, v)) return Sym(qToD(v));
    if (p && p->size() <= 40) return fromId(polyToNode(*p));
    return s;
}

// ---------------------------------------------------------------------------------------------- Z3
static z3::context* Z;
static std::unordered_map<int, z3::expr> zMemo;
static std::unordered_map<int, z3::expr> zbMemo;
static z3::expr zq(const mpq_class& q) {
    std::string n = q.get_num().get_str(), d = q.get_den().get_str();
    return Z->real_val((n + "/" + d).c_str());
}
static z3::expr zx(int id) {
    auto it = zMemo.find(id);
    if (it != zMemo.end()) return it->second;
    const Node n = N[id];
    z3::expr e(*Z);
    switch (n.op) {
        case CONST: e = zq(toQ(n.k)); break;
        case ADD: e = zx(n.a) + zx(n.b); break;
        case MUL: e = zx(n.a) * zx(n.b); break;
        case DIV: e = zx(n.a) / zx(n.b); break;
        case ITE: {
            extern z3::expr zb(int, double);
            e = z3::ite(zb(n.c, -1), zx(n.a), zx(n.b));
            break;
        }
        case UF:
            if (exactConst.count(id)) {
                e = zq(exactConst[id]);
                break;
            }
        default: {
            std::string nm = n.name.empty() ? "t" + std::to_string(id) : n.name;
            e = Z->real_const(nm.c_str());
        }
    }
    zMemo.emplace(id, e);
    return e;
}
// margin >= 0: equalities are relaxed to |a-b| <= margin
z3::expr zb(int id, double margin) {
    if (margin < 0) {
        auto it = zbMemo.find(id);
        if (it != zbMemo.end()) return it->second;
    }
    const BNode n = B[id];
    z3::expr e(*Z);
    switch (n.op) {
        case BTRUE: e = Z->bool_val(true); break;
        case BFALSE: e = Z->bool_val(false); break;
        case LT: e = zx(n.a) < zx(n.b); break;
        case LE: e = zx(n.a) <= zx(n.b); break;
        case EQ:
            if (margin < 0)
                e = zx(n.a) == zx(n.b);
            else {
                z3::expr d = zx(n.a) - zx(n.b), m = zq(toQ(margin));
                e = d <= m && d >= -m;
            }
            break;
        case NEAR: {
            z3::expr d = zx(n.a) - zx(n.b), m = zq(toQ(n.k));
            e = d <= m && d >= -m;
            break;
        }
        case AND: e = zb(n.a, margin) && zb(n.b, margin); break;
        case OR: e = zb(n.a, margin) || zb(n.b, margin); break;
        case NOT: e = !zb(n.a, margin); break;
    }
    if (margin < 0) zbMemo.emplace(id, e);
    return e;
}

// ---------------------------------------------------------------------------------------------- statistics
Stats st;
Config cfg;

struct Decision {
    int pick;
    double payload;
    int b;  // condition decided (replay determinism check)
    bool implied = false;  // the path already implied it: left out of one-shot queries
};
struct Input {
    std::string name;
    int kind;  // 0 real, 1 angle(c,s), 2 choice
    int a, b;
    int value;
    double lo = 0, hi = 0;
};

struct PathState {
    std::vector<int> conds;            // B ids asserted
    std::vector<int> defs;             // B ids of definitions asserted
    std::unordered_set<int> defDone;   // nodes whose definition is asserted
    std::unordered_map<int, bool> known;
    std::vector<Decision> prefix;
    size_t pos = 0;
    std::vector<Decision> taken;
    std::vector<Input> inputs;
    std::map<std::string, int> nameCount;
    std::unique_ptr<z3::solver> s;
    std::unique_ptr<z3::model> m;
    bool nonlinear = false;
    bool unsure = false;  // some feasibility query was unknown
    std::vector<std::pair<std::string, int>> pending;
    int clockPrev = -1;
};
static PathState* P;
static std::vector<std::vector<Decision>> work;

static std::unordered_map<int, std::vector<int>> atomsMemo;  // node -> atoms with definitions
static std::vector<int> defsOf(int id);

static void collectAtoms(int id, std::vector<int>& out, std::unordered_set<int>& seen);
static void collectAtomsB(int id, std::vector<int>& out, std::unordered_set<int>& seen) {
    const BNode& n = B[id];
    switch (n.op) {
        case LT: case LE: case EQ: case NEAR:
            collectAtoms(n.a, out, seen);
            collectAtoms(n.b, out, seen);
            break;
        case AND: case OR:
            collectAtomsB(n.a, out, seen);
            collectAtomsB(n.b, out, seen);
            break;
        case NOT: collectAtomsB(n.a, out, seen); break;
        default: break;
    }
}
static bool gNL;
static bool isNumeral(int id) { return N[id].op == CONST || exactConst.count(id); }
static void collectAtoms(int id, std::vector<int>& out, std::unordered_set<int>& seen) {
    if (!seen.insert(id).second) return;
    const Node n = N[id];
    switch (n.op) {
        case MUL:
            if (!isNumeral(n.a) && !isNumeral(n.b)) gNL = true;
            collectAtoms(n.a, out, seen);
            collectAtoms(n.b, out, seen);
            break;
        case DIV:
            if (!isNumeral(n.b)) gNL = true;
            collectAtoms(n.a, out, seen);
            collectAtoms(n.b, out, seen);
            break;
        case ADD:
            collectAtoms(n.a, out, seen);
            collectAtoms(n.b, out, seen);
            break;
        case ITE:
            collectAtoms(n.a, out, seen);
            collectAtoms(n.b, out, seen);
            collectAtomsB(n.c, out, seen);
            break;
        case CONST: break;
        case VAR: out.push_back(id); break;
        default: out.push_back(id);
    }
}

static int bAnd(int a, int b) {
    if (a == 0 || b == 0) return 0;
    if (a == 1) return b;
    if (b == 1 || a == b) return a;
    return mkb(AND, std::min(a, b), std::max(a, b));
}
static int bNot(int a) {
    if (a == 0) return 1;
    if (a == 1) return 0;
    if (B[a].op == NOT) return B[a].a;
    if (B[a].op == LT) return mkb(LE, B[a].b, B[a].a);
    if (B[a].op == LE) return mkb(LT, B[a].b, B[a].a);
    return mkb(NOT, a, 0);
}
static int bOr(int a, int b) {
    if (a == 1 || b == 1) return 1;
    if (a == 0) return b;
    if (b == 0 || a == b) return a;
    return mkb(OR, std::min(a, b), std::max(a, b));
}
static std::unordered_map<int, int> varSign;  // input -> 1 positive, -1 negative, by its bounds
// sign of a polynomial when every monomial has the same known sign: 2 (>0), 1 (>=0), -1 (<=0), -2 (<0), 0 unknown
static int polySign(const Poly& p) {
    int all = 0;
    bool strict = false;
    for (auto& t : p) {
        int s = t.second > 0 ? 1 : -1;
        bool st = true;
        for (auto& f : t.first) {
            auto v = varSign.find(f.first);
            const bool root = N[f.first].op == SQRT;
            if (v != varSign.end()) {
                if (f.second % 2) s *= v->second;
            } else if (root || f.second % 2 == 0) {
                st = st && f.second < 0;
            } else
                return 0;
        }
        if (all && s != all) return 0;
        all = s;
        strict = strict || st;
    }
    return strict ? 2 * all : all;
}
// a difference of two roots (or of a root and a number) has the sign of the difference of the squares
static bool squared(const Poly& p, Poly& out) {
    if (p.size() != 2) return false;
    Poly r;
    int neg = 0, roots = 0;
    for (auto& t : p) {
        const bool n = t.second < 0;
        neg += n;
        const mpq_class c2 = n ? mpq_class(-t.second * t.second) : mpq_class(t.second * t.second);
        if (t.first.empty()) r[t.first] += c2;
        else if (t.first.size() == 1 && t.first.begin()->second == 1 && N[t.first.begin()->first].op == SQRT) {
            PolyP q = norm(N[t.first.begin()->first].a);
            if (!q || q->size() > 30) return false;
            for (auto& u : *q) r[u.first] += u.second * c2;
            ++roots;
        } else
            return false;
    }
    if (neg != 1 || !roots) return false;
    out.clear();
    for (auto& t : r)
        if (t.second != 0) out[t.first] = t.second;
    return true;
}
static int cmp(BOp op, const Sym& a, const Sym& b, bool simp) {
    if (a.isPoison() || b.isPoison()) {
        ++st.poison;
        throw Uninit();
    }
    if (a.isConst() && b.isConst()) return op == LT ? a.c < b.c : op == LE ? a.c <= b.c : a.c == b.c;
    if (a.isConst() && !std::isfinite(a.c)) return std::isnan(a.c) ? 0 : op == EQ ? 0 : a.c < 0;
    if (b.isConst() && !std::isfinite(b.c)) return std::isnan(b.c) ? 0 : op == EQ ? 0 : b.c > 0;
    if (a.id == b.id && !a.isConst()) return op != LT;
    if (simp) {
        Sym d = a - b;
        PolyP p = d.isConst() ? PolyP() : norm(d.id);
        if (d.isConst()) return op == LT ? d.c < 0 : op == LE ? d.c <= 0 : d.c == 0;
        mpq_class v;
        if (polyConst(p, v)) return op == LT ? v < 0 : op == LE ? v <= 0 : v == 0;
        if (zeroFraction(p)) return op != LT;
        Poly sq;
        if (p && squared(*p, sq)) {
            p = std::make_shared<Poly>(sq);
            if (sq.empty()) return op != LT;
            if (polyConst(p, v)) return op == LT ? v < 0 : op == LE ? v <= 0 : v == 0;
        }
        if (p && !p->empty() && p->size() <= 60) {
            const int sg = polySign(*p);
            if (op == LT && (sg == -2 || sg > 0)) return sg < 0;
            if (op == LE && (sg == 2 || sg < 0)) return sg < 0;
            if (op == EQ && (sg == 2 || sg == -2)) return 0;
            // scale by the leading coefficient for canonical form
            mpq_class lead = abs(p->rbegin()->second);
            Poly q;
            for (auto& t : *p) q.emplace(t.first, t.second / lead);
            return mkb(op, polyToNode(q), constNode(0));
        }
        return mkb(op, idOf(d), constNode(0));
    }
    return mkb(op, idOf(a), idOf(b));
}

// trig tables -------------------------------------------------------------------------------------------------
struct TrigDef { int c, s; };
static std::map<std::pair<int, int>, TrigDef> trigOf;  // (atom, Q) -> pair for atom/Q
static std::unordered_map<int, std::vector<int>> extraDefs;  // atom -> B ids
static const double RPI = 3.14159265358979323846;

static std::vector<int> defsOf(int id) {
    const Node n = N[id];
    std::vector<int> r;
    int zero = constNode(0);
    if (n.op == SQRT) {
        r.push_back(mkb(LE, zero, id));
        r.push_back(mkb(EQ, mk(MUL, id, id, 0, 0, ""), n.a));
    } else if (n.op == POW) {
        int base = n.a;
        Sym e = fromId(n.b);
        int one = constNode(1);
        int pos = mkb(LT, zero, base);
        r.push_back(bOr(bNot(pos), mkb(LT, zero, id)));
        r.push_back(bOr(bNot(mkb(EQ, base, one)), mkb(EQ, id, one)));
        if (e.isConst() && e.c > 0) {
            r.push_back(bOr(bNot(mkb(EQ, base, zero)), mkb(EQ, id, zero)));
            r.push_back(bOr(bNot(mkb(LT, one, base)), mkb(LT, one, id)));
            r.push_back(bOr(bNot(bAnd(pos, mkb(LT, base, one))), mkb(LT, id, one)));
        }
    } else if (n.op == ACOS) {
        r.push_back(mkb(LE, zero, id));
        r.push_back(mkb(LE, id, constNode(RPI)));
        r.push_back(bOr(bNot(mkb(EQ, n.a, constNode(1))), mkb(EQ, id, zero)));
        r.push_back(bOr(bNot(mkb(LT, n.a, constNode(1))), mkb(LT, zero, id)));
        r.push_back(bOr(bNot(mkb(LE, zero, n.a)), mkb(LE, id, constNode(RPI / 2))));
    } else if (n.op == ATAN2) {
        r.push_back(mkb(LE, constNode(-RPI), id));
        r.push_back(mkb(LE, id, constNode(RPI)));
        r.push_back(bOr(bNot(mkb(LT, zero, n.a)), mkb(LT, zero, id)));
        r.push_back(bOr(bNot(mkb(LT, n.a, zero)), mkb(LT, id, zero)));
    } else if (n.op == FLOOR) {
        r.push_back(mkb(LE, id, n.a));
        r.push_back(mkb(LT, n.a, mk(ADD, id, constNode(1), 0, 0, "")));
    }
    auto it = extraDefs.find(id);
    if (it != extraDefs.end()) r.insert(r.end(), it->second.begin(), it->second.end());
    return r;
}

// ---------------------------------------------------------------------------------------------- assertions
static void assertRaw(int b) {
    P->s->add(zb(b, -1));
    P->defs.push_back(b);
}
static void assertDefs(int b) {
    std::vector<int> todo{b};
    while (!todo.empty()) {
        int x = todo.back();
        todo.pop_back();
        std::vector<int> atoms;
        std::unordered_set<int> seen;
        collectAtomsB(x, atoms, seen);
        if (gNL) P->nonlinear = true;
        for (int a : atoms) {
            if (!P->defDone.insert(a).second) continue;
            for (int d : defsOf(a)) {
                assertRaw(d);
                todo.push_back(d);
            }
        }
    }
}

enum Res { SAT, UNSAT, UNKNOWN };
static void setTimeout(z3::solver& s, unsigned ms) {
    z3::params p(*Z);
    p.set("timeout", ms);
    s.set(p);
}
static std::string dumpSmt2(const std::vector<z3::expr>& es) {
    z3::solver t(*Z);
    for (auto& e : es) t.add(e);
    return t.to_smt2();
}
// a fresh non-incremental query
static Res freshQuery(const std::vector<z3::expr>& es, unsigned ms, const char* tac, std::unique_ptr<z3::model>* model) {
    z3::solver t = tac ? z3::tactic(*Z, tac).mk_solver() : z3::solver(*Z);
    setTimeout(t, ms);
    for (auto& e : es) t.add(e);
    try {
        z3::check_result r = t.check();
        if (r == z3::sat) {
            if (model) model->reset(new z3::model(t.get_model()));
            return SAT;
        }
        return r == z3::unsat ? UNSAT : UNKNOWN;
    } catch (z3::exception&) {
        return UNKNOWN;
    }
}
static std::vector<z3::expr> pathExprs() {
    std::vector<z3::expr> v;
    for (int d : P->defs) v.push_back(zb(d, -1));
    for (int d : P->conds) v.push_back(zb(d, -1));
    return v;
}
// Is path /\ extra satisfiable?
static volatile bool inSolver = false;
static double solverCpu = 0;  // CPU seconds of this path spent in the solver
static double cpuSec() {
    struct rusage u;
    getrusage(RUSAGE_SELF, &u);
    return u.ru_utime.tv_sec + u.ru_utime.tv_usec * 1e-6;
}
struct SolverScope {
    double t = cpuSec();
    SolverScope() { inSolver = true; }
    ~SolverScope() {
        inSolver = false;
        solverCpu += cpuSec() - t;
    }
};
static Res query(const z3::expr& extra, bool important, std::unique_ptr<z3::model>* model) {
    SolverScope scope;
    double t0 = now();
    ++st.queries;
    Res r = UNKNOWN;
    unsigned t1 = important ? cfg.checkMs : cfg.branchMs;
    if (!P->nonlinear || !cfg.nlsatFirst) {
        P->s->push();
        P->s->add(extra);
        setTimeout(*P->s, P->nonlinear ? std::min(t1, cfg.smtMs) : t1);
        try {
            z3::check_result c = P->s->check();
            if (c == z3::sat) {
                r = SAT;
                if (model) model->reset(new z3::model(P->s->get_model()));
            } else if (c == z3::unsat)
                r = UNSAT;
        } catch (z3::exception&) {
        }
        P->s->pop();
    }
    if (r == UNKNOWN && P->nonlinear) {
        auto es = pathExprs();
        es.push_back(extra);
        r = freshQuery(es, t1, "qfnra-nlsat", model);
        if (r == UNKNOWN && important) r = freshQuery(es, t1, nullptr, model);
        if (r == UNKNOWN && important && cfg.cvc5Ms) {
            char fn[256];
            snprintf(fn, sizeof fn, "%s.%d.smt2", cfg.out.c_str(), (int)getpid());
            {
                std::ofstream f(fn);
                f << "(set-logic QF_NRA)\n" << dumpSmt2(es);
            }
            char cmd[600];
            snprintf(cmd, sizeof cmd, "cvc5 --tlimit=%u --nl-cov %s 2>/dev/null", cfg.cvc5Ms, fn);
            FILE* p = popen(cmd, "r");
            char line[256] = "";
            if (p) {
                if (!fgets(line, sizeof line, p)) line[0] = 0;
                pclose(p);
            }
            if (!strncmp(line, "unsat", 5)) {
                r = UNSAT;
                ++st.cvc5;
            }
            unlink(fn);
        }
    }
    double dt = now() - t0;
    st.solverTime += dt;
    if (dt > st.maxQuery) st.maxQuery = dt;
    if (r == UNKNOWN) ++st.unknown;
    if (r == UNSAT) ++st.unsat;
    if (r == SAT) ++st.sat;
    if (cfg.verbose > 2 && dt > 1) fprintf(stderr, "%s\n", extra.to_string().substr(0, 600).c_str());
    if (cfg.verbose > 1) fprintf(stderr, "  query %s %.2fs %s\n", r == SAT ? "sat" : r == UNSAT ? "unsat" : "unknown", dt, important ? "check" : "branch");
    return r;
}
static bool modelSays(int b, bool want) {
    if (!P->m) return false;
    try {
        z3::expr v = P->m->eval(zb(b, -1), true);
        return want ? v.is_true() : v.is_false();
    } catch (z3::exception&) {
        return false;
    }
}
static void addCond(int b, bool implied = false) {
    if (!implied || !cfg.nlsatFirst) P->conds.push_back(b);
    P->s->add(zb(b, -1));
    P->known[b] = true;
    P->known[bNot(b)] = false;
}
static void checkBudget() {
    if (now() > cfg.deadline) {
        ++st.budgetOut;
        throw PathEnd{2, "budget"};
    }
    if (P->taken.size() > cfg.maxDecisions) throw PathEnd{2, "decision bound"};
}

// Fork on b.
static bool preferFalse = false;  // an undecided branch condition is taken to be false (and reported)
static bool branchB(int b) {
    if (b == 0) return false;
    if (b == 1) return true;
    auto kn = P->known.find(b);
    if (kn != P->known.end()) return kn->second;
    checkBudget();
    gNL = false;
    assertDefs(b);
    if (P->pos < P->prefix.size()) {
        Decision d = P->prefix[P->pos++];
        if (d.b != b) throw PathEnd{2, "replay divergence"};
        P->taken.push_back(d);
        addCond(d.pick ? b : bNot(b), d.implied);
        return d.pick;
    }
    ++st.branches;
    int nb = bNot(b);
    std::unique_ptr<z3::model> mt, mf;
    Res rt, rf;
    bool keepT = false, keepF = false;
    if (modelSays(b, true)) {
        rt = SAT;
        keepT = true;
        ++st.modelHits;
    } else
        rt = query(zb(b, -1), false, &mt);
    if (rt == UNSAT)
        rf = SAT;
    else if (modelSays(b, false)) {
        rf = SAT;
        keepF = true;
        ++st.modelHits;
    } else
        rf = query(zb(nb, -1), false, &mf);
    if (rt == UNSAT && rf == UNSAT) {
        ++st.late;
        throw PathEnd{0, "infeasible"};
    }
    const bool skip = preferFalse && rt == UNKNOWN;
    if (skip) {
        ++st.skipped;
        ++st.reasons["zero divisor not excluded"];
        rt = UNSAT;
    }
    if (rt == UNKNOWN || rf == UNKNOWN) P->unsure = true;
    bool pick;
    if (rt == UNSAT)
        pick = false;
    else if (rf == UNSAT)
        pick = true;
    else {
        ++st.forks;
        pick = true;
        auto other = P->taken;
        other.push_back({0, 0, b});
        work.push_back(other);
    }
    const bool implied = rt == UNSAT || rf == UNSAT;
    P->taken.push_back({pick, 0, b, implied && !skip});
    P->pos = P->taken.size();
    P->prefix = P->taken;
    if (pick ? !keepT : !keepF) {
        if (pick ? (rt == SAT && mt) : (rf == SAT && mf)) P->m = std::move(pick ? mt : mf);
        else if (pick && !(rt == SAT && !mt)) P->m.reset();
        else if (!pick && rt == UNSAT) { /* current model, if any, still satisfies the path */ }
        else P->m.reset();
    }
    addCond(pick ? b : nb, implied && !skip);
    return pick;
}
static int choose(int n) {
    checkBudget();
    if (P->pos < P->prefix.size()) {
        Decision d = P->prefix[P->pos++];
        if (d.b != -1 - n) throw PathEnd{2, "replay divergence"};
        P->taken.push_back(d);
        return d.pick;
    }
    for (int i = n - 1; i >= 1; --i) {
        auto other = P->taken;
        other.push_back({i, 0, -1 - n});
        work.push_back(other);
    }
    if (n > 1) st.forks += n - 1;
    P->taken.push_back({0, 0, -1 - n});
    P->pos = P->taken.size();
    P->prefix = P->taken;
    return 0;
}

// ---------------------------------------------------------------------------------------------- models and records
static double valOf(z3::model& m, int id) {
    z3::expr v = m.eval(zx(id), true);
    if (v.is_algebraic()) {
        std::string s = v.get_decimal_string(40);
        return strtod(s.c_str(), nullptr);
    }
    std::string num, den;
    if (v.is_numeral()) {
        z3::expr n = v.numerator(), d = v.denominator();
        mpq_class q(n.get_decimal_string(0).c_str());
        (void)q;
        mpz_class zn(Z3_get_numeral_string(*Z, n)), zd(Z3_get_numeral_string(*Z, d));
        mpq_class r(zn, zd);
        r.canonicalize();
        return r.get_d();
    }
    return strtod(v.get_decimal_string(30).c_str(), nullptr);
}
static std::vector<std::pair<std::string, double>> valuation(z3::model& m) {
    std::vector<std::pair<std::string, double>> r;
    for (auto& in : P->inputs) {
        if (in.kind == 0)
            r.emplace_back(in.name, valOf(m, in.a));
        else if (in.kind == 1) {
            double c = valOf(m, in.a), s = valOf(m, in.b);
            r.emplace_back(in.name, std::atan2(s, c));
        } else
            r.emplace_back(in.name, (double)in.value);
    }
    return r;
}
// what the solver does not yet know about the inputs (unit norms), before a model is taken
static void assertInputs() {
    for (size_t i = 0; i < P->inputs.size(); ++i) {
        const Input in = P->inputs[i];
        if (in.kind > 1) continue;
        for (int a : {in.a, in.kind == 1 ? in.b : in.a}) {
            if (!P->defDone.insert(a).second) continue;
            for (int d : defsOf(a)) {
                gNL = false;
                std::vector<int> atoms;
                std::unordered_set<int> seen;
                collectAtomsB(d, atoms, seen);
                if (gNL) P->nonlinear = true;
                assertRaw(d);
                assertDefs(d);
            }
        }
    }
}
static bool currentModel(std::unique_ptr<z3::model>& m) {
    assertInputs();
    Res r = query(Z->bool_val(true), true, &m);
    if (r == UNSAT) {
        ++st.late;
        throw PathEnd{0, "infeasible"};
    }
    return r == SAT && m;
}
static void recordViolation(const std::string& label, z3::model& m, const std::string& kind) {
    static std::map<std::string, long> seen;
    const long n = seen[label]++;
    if (n >= 12 && (n & (n - 1)) != 0) return;  // the first dozen, then ever sparser
    Record rec;
    rec.label = label;
    rec.kind = kind;
    rec.values = valuation(m);
    st.violations.push_back(rec);
}
static bool probe(const std::string& label, int conj);
static void violationHere(const std::string& label, const std::string& kind) {
    std::unique_ptr<z3::model> m;
    if (currentModel(m)) {
        recordViolation(label, *m, kind);
        throw PathEnd{1, label};
    }
    if (probe(label, 0)) throw PathEnd{1, label};
    ++st.undecided;
    st.undecidedLabels.insert(label);
    throw PathEnd{2, "undecided violation " + label};
}

// An obligation the solver leaves open: look for a counterexample in slices of the input space (some inputs pinned, the
// rest symbolic). Finds violations only, an open obligation stays reported as undecided.
static bool probe(const std::string& label, int conj) {
    static unsigned long long rng = 88172645463325252ULL + cfg.seed;
    auto rnd = [&](int n) {
        rng ^= rng << 13, rng ^= rng >> 7, rng ^= rng << 17;
        return (int)(rng % n);
    };
    if (now() > cfg.deadline - 2) return false;
    assertInputs();
    std::unique_ptr<z3::model> base;
    for (int k = 0; k < cfg.probes; ++k) {
        if (k == 0 || !base) {
            auto es = pathExprs();
            SolverScope scope;
            Res r = P->nonlinear ? freshQuery(es, 1500, "qfnra-nlsat", &base) : freshQuery(es, 1500, nullptr, &base);
            if (r != SAT) base.reset();
        }
        auto es = pathExprs();
        es.push_back(!zb(conj, -1));
        std::vector<int> free;
        for (size_t i = 0; i < P->inputs.size(); ++i)
            if (P->inputs[i].kind < 2) free.push_back((int)i);
        int keep = k % 3 == 0 ? 1 : k % 3 == 1 ? 2 : 3;
        while ((int)free.size() > keep) {
            int j = rnd(free.size()), i = free[j];
            free.erase(free.begin() + j);
            const Input& in = P->inputs[i];
            auto pin = [&](int id, long num, long den) { es.push_back(zx(id) == Z->real_val((std::to_string(num) + "/" + std::to_string(den)).c_str())); };
            if (in.kind == 0) {
                if (in.name.find(".w") != std::string::npos || in.name.find(".x") != std::string::npos) continue;
                double v;
                if (base && k % 2 == 0)
                    v = valOf(*base, in.a);
                else if (in.hi > in.lo && in.hi - in.lo < 1e6)
                    v = in.lo + (in.hi - in.lo) * (1 + rnd(62)) / 64.0;
                else
                    continue;
                if (!(std::fabs(v) < 1e6)) continue;
                pin(in.a, std::lround(v * 4096), 4096);
            } else {
                long t = rnd(31) - 15, n = 8;
                pin(in.a, n * n - t * t, n * n + t * t);
                pin(in.b, 2 * t * n, n * n + t * t);
            }
        }
        std::unique_ptr<z3::model> m;
        SolverScope scope;
        double t0 = now();
        ++st.queries;
        Res r = P->nonlinear ? freshQuery(es, 1000, "qfnra-nlsat", &m) : freshQuery(es, 1000, nullptr, &m);
        st.solverTime += now() - t0;
        if (r == SAT && m) {
            std::vector<z3::expr> es2(es);
            es2.back() = es.back();
            std::unique_ptr<z3::model> m2;
            for (auto& e : es2)
                if (z3::eq(e, !zb(conj, -1))) e = !zb(conj, cfg.margin);
            if ((P->nonlinear ? freshQuery(es2, 1000, "qfnra-nlsat", &m2) : freshQuery(es2, 1000, nullptr, &m2)) != SAT) continue;
            recordViolation(label, *m2, "check");
            return true;
        }
        if (now() > cfg.deadline - 2) break;
    }
    return false;
}

// Is f implied by the path?
static void flushChecks() {
    if (P->pending.empty()) return;
    auto pend = std::move(P->pending);
    P->pending.clear();
    std::vector<std::pair<std::string, int>> todo;
    for (auto& c : pend) {
        ++st.checks;
        st.labels.insert(c.first);
        if (c.second == 1) {
            ++st.trivial;
            continue;
        }
        todo.push_back(c);
    }
    if (todo.empty()) return;
    for (auto& c : todo) {
        gNL = false;
        assertDefs(c.second);
    }
    auto one = [&](std::vector<std::pair<std::string, int>>& v, bool solo) -> bool {
        int conj = 1;
        auto& c0 = v[0];
        for (auto& c : v) conj = bAnd(conj, c.second);
        if (conj == 1) {
            st.discharged += v.size();
            return true;
        }
        std::unique_ptr<z3::model> m;
        Res r = query(!zb(conj, -1), true, &m);
        if (r == UNSAT) {
            st.discharged += v.size();
            return true;
        }
        if (r == SAT && solo) {
            // prefer a counterexample that breaks equalities by a clear margin
            std::unique_ptr<z3::model> m2;
            assertInputs();
            Res r2 = query(!zb(conj, cfg.margin), true, &m2);
            if (r2 == SAT) {
                recordViolation(v[0].first, *m2, "check");
                throw PathEnd{1, v[0].first};
            }
            if (r2 == UNSAT) {
                ++st.discharged;
                ++st.withinMargin;
                return true;
            }
            recordViolation(v[0].first, *m, "check");
            throw PathEnd{1, v[0].first};
        }
        if (solo && probe(c0.first, conj)) throw PathEnd{1, c0.first};
        if (solo) {
            ++st.undecided;
            st.undecidedLabels.insert(v[0].first);
        }
        return false;
    };
    if (todo.size() > 1 && one(todo, false)) return;
    for (auto& c : todo) {
        std::vector<std::pair<std::string, int>> v{c};
        one(v, true);
    }
}

// ---------------------------------------------------------------------------------------------- arithmetic
static bool pois(const Sym& a) { return a.isPoison(); }
static Sym poison() {
    Sym s(0);
    s.id = -1;
    return s;
}
static int sgnFork(const Sym& x) {
    if (x.isConst()) return x.c > 0 ? 1 : x.c < 0 ? -1 : 0;
    if (branchB(cmp(LT, Sym(0.0), x, true))) return 1;
    if (branchB(cmp(LT, x, Sym(0.0), true))) return -1;
    return 0;
}
static std::unordered_map<int, std::vector<int>> sqrtTerms;  // SQRT node -> terms whose squares it sums
Sym slow::add(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (a.isConst() && b.isConst()) return Sym(a.c + b.c);
    if (a.isConst() && (a.c == 0)) return b;
    if (b.isConst() && (b.c == 0)) return a;
    if (a.isConst() && !std::isfinite(a.c)) return a;
    if (b.isConst() && !std::isfinite(b.c)) return b;
    int x = idOf(a), y = idOf(b);
    return fromId(mk(ADD, std::min(x, y), std::max(x, y), 0, 0, ""));
}
Sym slow::neg(const Sym& a) {
    if (a.isPoison()) return a;
    return Sym(-1.0) * a;
}
Sym slow::sub(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (!a.isConst() && a.id == b.id) return Sym(0.0);
    if (a.isConst() && b.isConst()) return Sym(a.c - b.c);
    return a + (-b);
}
Sym slow::mul(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (a.isConst() && b.isConst()) return Sym(a.c * b.c);
    if (b.isConst()) return b * a;
    if (a.isConst()) {
        if (a.c == 0) return Sym(0.0);
        if (a.c == 1) return b;
        if (std::isnan(a.c)) return a;
        if (std::isinf(a.c)) {
            int s = sgnFork(b);
            return s ? Sym(s * a.c) : Sym(std::numeric_limits<double>::quiet_NaN());
        }
        const Node& n = N[b.id];
        if (n.op == MUL && N[n.a].op == CONST) {
            double k = a.c * N[n.a].k;
            if (toQ(k) == toQ(a.c) * toQ(N[n.a].k)) {
                if (k == 1) return fromId(n.b);
                return fromId(mk(MUL, constNode(k), n.b, 0, 0, ""));
            }
        }
        return fromId(mk(MUL, constNode(a.c), b.id, 0, 0, ""));
    }
    return fromId(mk(MUL, std::min(a.id, b.id), std::max(a.id, b.id), 0, 0, ""));
}
Sym slow::div(const Sym& a, const Sym& b0) {
    if (pois(a) || pois(b0)) return poison();
    if (a.isConst() && b0.isConst()) return Sym(a.c / b0.c);
    if (b0.isConst()) {
        if (b0.c == 0) {
            int s = sgnFork(a);
            return Sym(s / b0.c);
        }
        if (b0.c == 1) return a;
        if (!std::isfinite(b0.c)) return std::isnan(b0.c) ? b0 : Sym(0.0);
        return fromId(mk(DIV, idOf(a), constNode(b0.c), 0, 0, ""));
    }
    Sym b = simplify(b0);
    if (b.isConst()) {
        mpq_class v;  // keep the exact divisor
        if (polyConst(norm(idOf(b0)), v) && v != 0 && toQ(b.c) != v && !(a.isConst() && !std::isfinite(a.c)))
            return fromId(mk(DIV, idOf(a), qNode(v), 0, 0, ""));
        return a / b;
    }
    if (a.isConst() && std::isnan(a.c)) return a;
    if (a.isConst() && std::isinf(a.c)) {
        int s = sgnFork(b);
        return Sym(s < 0 ? -a.c : a.c);
    }
    const int isZero = cmp(EQ, b, Sym(0.0), true);
    auto sq = sqrtTerms.find(b.id);
    bool zero;
    if (sq != sqrtTerms.end() && !P->known.count(isZero)) {  // zero exactly when every squared term is
        int all = 1;
        for (int t : sq->second) all = bAnd(all, cmp(EQ, fromId(t), Sym(0.0), true));
        const unsigned ms = cfg.branchMs, sm = cfg.smtMs;
        cfg.branchMs = std::min(ms, cfg.tier == "quick" ? 200u : 2000u);
        cfg.smtMs = std::min(sm, cfg.branchMs / 2);
        preferFalse = true;
        try {
            zero = branchB(all);
        } catch (...) {
            preferFalse = false;
            cfg.branchMs = ms;
            cfg.smtMs = sm;
            throw;
        }
        preferFalse = false;
        cfg.branchMs = ms;
        cfg.smtMs = sm;
        gNL = false;
        assertDefs(isZero);
        addCond(zero ? isZero : bNot(isZero));
    } else
        zero = branchB(isZero);
    if (zero) {
        int s = sgnFork(a);
        return Sym(s / 0.0);
    }
    if (a.isConst() && a.c == 0) return a;
    return fromId(mk(DIV, idOf(a), b.id, 0, 0, ""));
}

bool slow::lt(const Sym& a, const Sym& b) { return branchB(cmp(LT, a, b, true)); }
bool slow::le(const Sym& a, const Sym& b) { return branchB(cmp(LE, a, b, true)); }
bool slow::eq(const Sym& a, const Sym& b) { return branchB(cmp(EQ, a, b, true)); }
Sym::operator bool() const { return *this != Sym(0.0); }

double Sym::toConst() const {
    Sym s = simplify(*this);
    if (s.isPoison()) throw Uninit();
    if (!s.isConst()) throw Unsupported("conversion of a symbolic value to a machine number");
    return s.c;
}
long long Sym::toInteger() const {
    Sym s = simplify(*this);
    if (s.isPoison()) throw Uninit();
    if (s.isConst()) {
        if (!std::isfinite(s.c) || std::fabs(s.c) > 9.2e18) throw BadConversion();
        return (long long)s.c;
    }
    Sym f = N[s.id].op == FLOOR ? s : Sym(trunc(s));
    f = simplify(f);
    if (f.isConst()) return (long long)f.c;
    // f = floor(x), or f = -floor(-x) (ceil of a negative value)
    bool isFloor = N[f.id].op == FLOOR;
    Sym x = isFloor ? fromId(N[f.id].a) : s;
    Sym one(1.0);
    auto holds = [&](double v) {  // f == v, expressed on x because integrality is not part of the real theory
        return isFloor ? bAnd(cmp(LE, Sym(v), x, true), cmp(LT, x, Sym(v) + one, true))
                       : bAnd(cmp(LT, Sym(v) - one, x, true), cmp(LE, x, Sym(v), true));
    };
    gNL = false;
    assertDefs(mkb(EQ, f.id, constNode(0)));
    for (int k = 0; k < cfg.maxIntValues; ++k) {
        checkBudget();
        Decision d;
        if (P->pos < P->prefix.size()) {
            d = P->prefix[P->pos++];
            if (d.b != -1000000 - f.id) throw PathEnd{2, "replay divergence"};
            P->taken.push_back(d);
        } else {
            std::unique_ptr<z3::model> m;
            Res r = query(Z->bool_val(true), false, &m);
            if (r == UNSAT) throw PathEnd{0, "infeasible"};
            if (r != SAT || !m) throw PathEnd{2, "integer conversion"};
            double xv = valOf(*m, idOf(x));
            double v = isFloor ? std::floor(xv) : std::ceil(xv);
            if (std::fabs(v) > 9.2e18) throw BadConversion();
            ++st.branches;
            auto other = P->taken;
            other.push_back({0, v, -1000000 - f.id});
            work.push_back(other);
            ++st.forks;
            d = {1, v, -1000000 - f.id};
            P->taken.push_back(d);
            P->prefix = P->taken;
            P->pos = P->taken.size();
        }
        int e = holds(d.payload);
        gNL = false;
        assertDefs(e);
        P->m.reset();
        addCond(d.pick ? e : bNot(e));
        if (d.pick) {
            addCond(mkb(EQ, f.id, constNode(d.payload)));
            return (long long)d.payload;
        }
    }
    throw PathEnd{2, "more integer values than the bound"};
}

// syntactic sum of squares: the squared terms
static bool sumSquares(int id, std::vector<int>& terms) {
    const Node& n = N[id];
    if (n.op == ADD) {
        int a = n.a, b = n.b;
        return sumSquares(a, terms) && sumSquares(b, terms);
    }
    if (n.op == MUL && n.a == n.b) {
        terms.push_back(n.a);
        return true;
    }
    if (n.op == MUL && N[n.a].op == CONST && N[n.a].k > 0) return sumSquares(n.b, terms);
    if (n.op == CONST && n.k >= 0) {
        if (n.k > 0) terms.push_back(id);
        return true;
    }
    return false;
}
Sym slow::sqrt(const Sym& x0) {
    if (pois(x0)) return poison();
    if (x0.isConst()) return Sym(std::sqrt(x0.c));
    Sym x = simplify(x0);
    if (x.isConst()) return Sym(std::sqrt(x.c));
    // even monomial with a rational square root coefficient: sqrt(k^2 m^2) = |k m|
    PolyP p = norm(x.id);
    if (p && p->size() == 1) {
        bool even = true;
        for (auto& f : p->begin()->first) even = even && f.second % 2 == 0;
        mpq_class k = p->begin()->second;
        if (even && k > 0) {
            mpz_class n = sqrt(k.get_num()), d = sqrt(k.get_den());
            if (n * n == k.get_num() && d * d == k.get_den()) {
                Poly q;
                Mono m = p->begin()->first;
                for (auto& f : m) f.second /= 2;
                q.emplace(m, mpq_class(n, d));
                return hs::fabs(fromId(polyToNode(q)));
            }
        }
    }
    std::vector<int> terms;
    if (sumSquares(x0.id, terms)) {
        int id = mk(SQRT, x.id, 0, 0, 0, "");
        sqrtTerms[id] = terms;
        return fromId(id);
    }
    if (branchB(cmp(LT, x, Sym(0.0), true))) return Sym(std::numeric_limits<double>::quiet_NaN());
    return fromId(mk(SQRT, x.id, 0, 0, 0, ""));
}
static Sym uf(const std::string& nm, const Sym& x) {
    ++st.uninterpreted;
    return fromId(mk(UF, idOf(x), 0, 0, 0, nm + "_" + std::to_string(idOf(x))));
}
#define CONSTFOLD1(f)                       \
    if (pois(x)) return poison();           \
    if (x.isConst()) return Sym(std::f(x.c));
Sym cbrt(const Sym& x) { CONSTFOLD1(cbrt) return uf("cbrt", x); }
Sym exp(const Sym& x) { CONSTFOLD1(exp) return uf("exp", x); }
Sym log(const Sym& x) { CONSTFOLD1(log) return uf("log", x); }

// --- trigonometry
struct CS { Sym c, s; };
static CS csMul(const CS& a, const CS& b) { return {simplify(a.c * b.c - a.s * b.s), simplify(a.s * b.c + a.c * b.s)}; }
static CS csPow(const CS& a, int k) {
    if (k < 0) {
        CS r = csPow(a, -k);
        return {r.c, -r.s};
    }
    CS r{Sym(1.0), Sym(0.0)};
    for (int i = 0; i < k; ++i) r = csMul(r, a);
    return r;
}
static int freshVar(const std::string& nm) { return mk(VAR, 0, 0, 0, 0, nm); }
static void unitPair(int c, int s) {
    Poly p;
    p.emplace(Mono{}, 1);
    p.emplace(Mono{{c, 2}}, -1);
    squareRule[s] = p;
    int e = mkb(EQ, mk(ADD, mk(MUL, c, c, 0, 0, ""), mk(MUL, s, s, 0, 0, ""), 0, 0, ""), constNode(1));
    auto addDef = [&](int a) {
        auto& v = extraDefs[a];
        if (std::find(v.begin(), v.end(), e) == v.end()) v.push_back(e);
    };
    addDef(c);
    addDef(s);
}
static CS trigAtom(int atom, int Q) {
    auto key = std::make_pair(atom, Q);
    auto it = trigOf.find(key);
    if (it != trigOf.end() && it->second.c >= 0) return {fromId(it->second.c), fromId(it->second.s)};
    const Node n = N[atom];
    if (Q == 1) {
        if (n.op == ATAN2) {
            Sym y = fromId(n.a), x = fromId(n.b);
            Sym r = sqrt(x * x + y * y);
            if (r.isConst() ? r.c == 0 : branchB(cmp(EQ, r, Sym(0.0), true))) return {Sym(1.0), Sym(0.0)};
            return {simplify(x / r), simplify(y / r)};
        }
        if (n.op == ACOS) {
            Sym x = fromId(n.a);
            return {x, sqrt(Sym(1.0) - x * x)};
        }
    }
    std::string nm = "trig" + std::to_string(atom) + "_" + std::to_string(Q);
    int c = freshVar("c" + nm), s = freshVar("s" + nm);
    if (!squareRule.count(s)) unitPair(c, s);
    if (Q == 1) {
        trigOf[key] = {c, s};
        return {fromId(c), fromId(s)};
    }
    CS base = trigAtom(atom, 1);
    CS mult = csPow({fromId(c), fromId(s)}, Q);
    std::vector<int> defs;
    // Constants that come from cos and sin of a number are on the unit circle up to rounding only; demanding both
    // equalities of a pair that is exactly on it would be contradictory.
    const Sym n2 = base.c * base.c + base.s * base.s;
    mpq_class one2 = 1;
    if (n2.isConst()) one2 = mpq_class(n2.c);
    else polyConst(norm(n2.id), one2);
    int dc = cmp(EQ, mult.c, base.c, false), ds = 1;
    if (one2 == 1) ds = cmp(EQ, mult.s, base.s, false);
    else ds = bAnd(cmp(LE, mult.s, base.s + Sym(1e-9), false), cmp(LE, base.s - Sym(1e-9), mult.s, false));
    if (dc > 1) defs.push_back(dc);
    if (ds > 1) defs.push_back(ds);
    if (n.op == ACOS) {
        defs.push_back(mkb(LE, constNode(0), s));
        defs.push_back(mkb(LE, constNode(std::cos(RPI / Q) - 1e-12), c));
    } else if (n.op == ATAN2 || n.op == VAR) {
        defs.push_back(mkb(LE, constNode(std::cos(RPI / Q) - 1e-12), c));
    }
    for (int d : defs) {
        for (int a : {c, s}) {
            auto& v = extraDefs[a];
            if (std::find(v.begin(), v.end(), d) == v.end()) v.push_back(d);
        }
    }
    return {fromId(c), fromId(s)};
}
static double snap(double v) {
    for (double t : {-1.0, 0.0, 1.0, 0.5, -0.5})
        if (std::fabs(v - t) < 4e-16) return t;
    return v;
}
static CS trig(const Sym& x0) {
    if (x0.isConst()) return {Sym(std::cos(x0.c)), Sym(std::sin(x0.c))};
    PolyP p = norm(x0.id);
    std::vector<std::pair<int, mpq_class>> lin;
    mpq_class k0 = 0;
    bool ok = (bool)p;
    if (ok)
        for (auto& t : *p) {
            if (t.first.empty())
                k0 = t.second;
            else if (t.first.size() == 1 && t.first[0].second == 1)
                lin.emplace_back(t.first[0].first, t.second);
            else
                ok = false;
        }
    if (ok)
        for (auto& l : lin) {
            // rational with a small denominator, allowing for decimal rounding of i/n
            double v = l.second.get_d();
            bool found = false;
            for (int q = 1; q <= 12 && !found; ++q) {
                double m = v * q;
                if (std::fabs(m - std::round(m)) < 1e-9 && std::fabs(std::round(m)) <= 24) {
                    l.second = mpq_class((long)std::lround(m), q);
                    l.second.canonicalize();
                    found = true;
                }
            }
            ok = ok && found;
        }
    if (!ok) {
        Sym s = simplify(x0);
        return trigAtom(s.id, 1);
    }
    CS r{Sym(1.0), Sym(0.0)};
    for (auto& l : lin) {
        int q = (int)l.second.get_den().get_si(), m = (int)l.second.get_num().get_si();
        r = csMul(r, csPow(trigAtom(l.first, q), m));
    }
    if (k0 != 0) {
        double d = k0.get_d();
        r = csMul(r, {Sym(snap(std::cos(d))), Sym(snap(std::sin(d)))});
    }
    return r;
}
Sym cos(const Sym& x) { return pois(x) ? poison() : trig(x).c; }
Sym sin(const Sym& x) { return pois(x) ? poison() : trig(x).s; }
Sym tan(const Sym& x) {
    CONSTFOLD1(tan)
    CS t = trig(x);
    return t.s / t.c;
}
bool sameValue(const Sym& a, const Sym& b);
static std::vector<std::pair<int, CS>> angleVars() {
    std::vector<std::pair<int, CS>> r;
    for (auto& t : trigOf)
        if (t.first.second == 1 && N[t.first.first].op == VAR) r.emplace_back(t.first.first, CS{fromId(t.second.c), fromId(t.second.s)});
    return r;
}
Sym acos(const Sym& x0) {
    if (pois(x0)) return poison();
    Sym x = simplify(x0);
    if (x.isConst()) return Sym(std::acos(x.c));
    if (branchB(bOr(cmp(LT, Sym(1.0), x, true), cmp(LT, x, Sym(-1.0), true))))
        return Sym(std::numeric_limits<double>::quiet_NaN());
    // acos(cos(k t)) of a known angle variable t
    for (auto& t : angleVars())
        for (int k = 1; k <= 6; ++k) {
            if (!sameValue(x, csPow(t.second, k).c)) continue;
            const Sym lo(std::cos(RPI / k));
            int in = cmp(LE, lo, t.second.c, true), pos = cmp(LE, Sym(0.0), t.second.s, true);
            if (k > 1 && !branchB(in)) break;
            return branchB(pos) ? simplify(Sym((double)k) * fromId(t.first)) : simplify(Sym(-(double)k) * fromId(t.first));
        }
    return fromId(mk(ACOS, x.id, 0, 0, 0, ""));
}
Sym asin(const Sym& x0) {
    if (pois(x0)) return poison();
    Sym x = simplify(x0);
    if (x.isConst()) return Sym(std::asin(x.c));
    return Sym(RPI / 2) - acos(x);
}
Sym atan2(const Sym& y0, const Sym& x0) {
    if (pois(y0) || pois(x0)) return poison();
    Sym y = simplify(y0), x = simplify(x0);
    if (y.isConst() && x.isConst()) return Sym(std::atan2(y.c, x.c));
    // atan2(sin t, cos t) of a known angle variable in (-pi, pi]
    for (auto& t : trigOf)
        if (t.first.second == 1 && N[t.first.first].op == VAR && y.id == t.second.s && x.id == t.second.c)
            return fromId(t.first.first);
    for (auto& t : angleVars())
        for (int k = 1; k <= 6; ++k) {
            const CS m = csPow(t.second, k);
            if (!sameValue(x, m.c)) continue;
            const bool same = sameValue(y, m.s);
            if (!same && !sameValue(y, -m.s)) continue;
            // k t in (-pi, pi)
            if (k > 1 && !branchB(cmp(LT, Sym(std::cos(RPI / k)), t.second.c, true))) break;
            if (k == 1 && branchB(cmp(EQ, t.second.c, Sym(-1.0), true))) return Sym(RPI);
            return simplify(Sym(same ? (double)k : -(double)k) * fromId(t.first));
        }
    return fromId(mk(ATAN2, idOf(y), idOf(x), 0, 0, ""));
}
Sym atan(const Sym& x) {
    CONSTFOLD1(atan)
    return atan2(x, Sym(1.0));
}
Sym pow(const Sym& x0, const Sym& y0) {
    if (pois(x0) || pois(y0)) return poison();
    Sym x = simplify(x0), y = simplify(y0);
    if (x.isConst() && y.isConst()) return Sym(std::pow(x.c, y.c));
    if (y.isConst()) {
        double k = y.c;
        if (k == 0) return Sym(1.0);
        if (std::fabs(k) <= 8 && k == std::round(k)) {
            Sym r = x;
            for (int i = 1; i < std::fabs(k); ++i) r = r * x;
            return k > 0 ? r : Sym(1.0) / r;
        }
        if (k == 0.5) return sqrt(x);
        if (k == -0.5) return Sym(1.0) / sqrt(x);
        if (k == 1.5) return x * sqrt(x);
        if (branchB(cmp(LT, x, Sym(0.0), true))) return Sym(std::numeric_limits<double>::quiet_NaN());
    }
    if (x.isConst() && (x.c == 1)) return x;
    if (x.isConst() && x.c == 0 && !y.isConst()) {
        int s = sgnFork(y);
        return Sym(s > 0 ? 0.0 : s == 0 ? 1.0 : std::numeric_limits<double>::infinity());
    }
    if (!x.isConst() && N[x.id].op == POW) {  // (u^p)^q = u^(pq), u >= 0
        return pow(fromId(N[x.id].a), simplify(fromId(N[x.id].b) * y));
    }
    return fromId(mk(POW, idOf(x), idOf(y), 0, 0, ""));
}
static int bIteCond(const Sym& a, const Sym& b) { return cmp(LT, a, b, true); }
static Sym ite(int c, const Sym& a, const Sym& b) {
    if (c == 1) return a;
    if (c == 0) return b;
    if (idOf(a) == idOf(b)) return a;
    auto kn = P->known.find(c);
    if (kn != P->known.end()) return kn->second ? a : b;
    if (cfg.forkMinMax) return branchB(c) ? a : b;
    return fromId(mk(ITE, idOf(a), idOf(b), c, 0, ""));
}
Sym slow::fmin(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (a.isConst() && b.isConst()) return Sym(std::fmin(a.c, b.c));
    if (a.isConst() && !std::isfinite(a.c)) return std::isnan(a.c) || a.c > 0 ? b : a;
    if (b.isConst() && !std::isfinite(b.c)) return std::isnan(b.c) || b.c > 0 ? a : b;
    return ite(bIteCond(b, a), b, a);
}
Sym slow::fmax(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (a.isConst() && b.isConst()) return Sym(std::fmax(a.c, b.c));
    if (a.isConst() && !std::isfinite(a.c)) return std::isnan(a.c) || a.c < 0 ? b : a;
    if (b.isConst() && !std::isfinite(b.c)) return std::isnan(b.c) || b.c < 0 ? a : b;
    return ite(bIteCond(a, b), b, a);
}
Sym slow::fabs(const Sym& x0) {
    if (pois(x0)) return poison();
    if (x0.isConst()) return Sym(std::fabs(x0.c));
    Sym x = simplify(x0);
    if (x.isConst()) return Sym(std::fabs(x.c));
    if (N[x.id].op == SQRT) return x;
    return ite(cmp(LT, x, Sym(0.0), true), -x, x);
}
Sym hypot(const Sym& a, const Sym& b) { return sqrt(a * a + b * b); }
Sym fmod(const Sym& a, const Sym& b) {
    if (pois(a) || pois(b)) return poison();
    if (a.isConst() && b.isConst()) return Sym(std::fmod(a.c, b.c));
    return a - Sym(trunc(a / b)) * b;
}
SymInt floor(const Sym& x0) {
    if (pois(x0)) return SymInt(poison());
    Sym x = simplify(x0);
    if (x.isConst()) return SymInt(Sym(std::floor(x.c)));
    return SymInt(fromId(mk(FLOOR, x.id, 0, 0, 0, "")));
}
SymInt ceil(const Sym& x) { return x.isConst() ? SymInt(Sym(std::ceil(x.c))) : SymInt(-Sym(floor(-x))); }
SymInt trunc(const Sym& x) {
    if (x.isConst()) return SymInt(Sym(std::trunc(x.c)));
    return x >= Sym(0.0) ? floor(x) : ceil(x);
}
SymInt round(const Sym& x) {
    if (x.isConst()) return SymInt(Sym(std::round(x.c)));
    return x >= Sym(0.0) ? floor(x + Sym(0.5)) : ceil(x - Sym(0.5));
}
Sym copysign(const Sym& a, const Sym& b) {
    if (a.isConst() && b.isConst()) return Sym(std::copysign(a.c, b.c));
    return b < Sym(0.0) ? -fabs(a) : fabs(a);
}
bool signbit(const Sym& x) {
    if (x.isConst()) return std::signbit(x.c);
    return x < Sym(0.0);
}
bool isnan(const Sym& x) {
    if (pois(x)) throw Uninit();
    return x.isConst() && std::isnan(x.c);
}
bool isinf(const Sym& x) {
    if (pois(x)) throw Uninit();
    return x.isConst() && std::isinf(x.c);
}
bool isfinite(const Sym& x) {
    if (pois(x)) throw Uninit();
    return !x.isConst() || std::isfinite(x.c);
}
static std::map<std::string, int> tokens;
std::ostream& operator<<(std::ostream& o, const Sym& s) {
    if (s.isPoison()) return o << "@uninit";
    if (s.isConst()) {
        return o << s.c;
    }
    return o << "@" << s.id;
}
Sym fromToken(const std::string& t) {
    size_t i = t.find('@');
    if (i == std::string::npos) return Sym(strtod(t.c_str(), nullptr));
    if (t.compare(i, 7, "@uninit") == 0) return poison();
    return fromId(atoi(t.c_str() + i + 1));
}
static bool tokenAt(const char* t, Sym& s, size_t& n) {
    n = strspn(t, " \t\n\r\f\v");
    if (t[n] != '@') return false;
    s = fromToken(t + n);
    n += 1 + strspn(t + n + 1, "0123456789uninit");
    return true;
}
Sym text::stod(const std::string& t, size_t* n) {
    Sym s;
    size_t k;
    if (!tokenAt(t.c_str(), s, k)) return Sym(std::stod(t, n));
    if (n) *n = k;
    return s;
}
Sym text::strtod(const char* t, char** e) {
    Sym s;
    size_t k;
    if (!tokenAt(t, s, k)) return Sym(::strtod(t, e));
    if (e) *e = const_cast<char*>(t) + k;
    return s;
}
std::istream& operator>>(std::istream& i, Sym& s) {
    while (i.good() && std::isspace(i.peek())) i.get();
    if (i.peek() != '@') {
        double d = 0;
        if (i >> d) s = Sym(d);
        return i;
    }
    std::string t(1, static_cast<char>(i.get()));
    while (i.good() && std::isalnum(i.peek())) t += static_cast<char>(i.get());
    s = fromToken(t);
    return i;
}
std::string to_string(const Sym& s) {
    if (s.isConst()) return std::to_string(s.c);
    return "@" + std::to_string(s.id);
}

// ---------------------------------------------------------------------------------------------- inputs
static std::string uniq(const std::string& name0) {
    std::string name = name0;
    for (char& c : name)
        if (c == ' ') c = '_';
    int k = P->nameCount[name]++;
    return k ? name + "#" + std::to_string(k) : name;
}
// Development aid (no check uses it): HV_PIN=k fixes every input to an arbitrary value, so that a case without a complete
// path reveals contradictory definitions.
static bool pinned() {
    static const char* e = std::getenv("HV_PIN");
    return e != nullptr;
}
static double pinUnit(const std::string& name) {  // in (0, 1), dyadic
    size_t h = std::hash<std::string>()(name + "/" + std::getenv("HV_PIN"));
    return (double((h >> 7) % 4093) + 1) / 4096.0;
}
static void pinTo(int v, int num, int den) { assertRaw(mkb(EQ, mk(MUL, v, den, 0, 0, ""), num)), P->m.reset(); }
Sym inputReal(const std::string& name0, bool bounded, double lo, double hi) {
    std::string name = uniq(name0);
    int v = freshVar(name);
    P->inputs.push_back({name, 0, v, 0, 0});
    varSign.erase(v);
    if (bounded && lo > 0) varSign[v] = 1;
    if (bounded && hi < 0) varSign[v] = -1;
    if (bounded) P->inputs.back().lo = lo, P->inputs.back().hi = hi;
    if (bounded) {
        assertRaw(mkb(LE, constNode(lo), v));
        assertRaw(mkb(LE, v, constNode(hi)));
        if (P->m && !(modelSays(mkb(LE, constNode(lo), v), true) && modelSays(mkb(LE, v, constNode(hi)), true))) P->m.reset();
    }
    if (pinned()) pinTo(v, constNode(bounded ? lo + (hi - lo) * pinUnit(name) : 8 * pinUnit(name) - 4), constNode(1));
    return fromId(v);
}
Sym inputAngle(const std::string& name0) {
    std::string name = uniq(name0);
    int v = freshVar(name), c = freshVar(name + ".c"), s = freshVar(name + ".s");
    unitPair(c, s);
    trigOf[{v, 1}] = {c, s};
    int z = constNode(0);
    auto& d = extraDefs[v];
    if (d.empty()) {
        d = {mkb(LT, constNode(-RPI), v), mkb(LE, v, constNode(RPI)),
             bOr(bNot(mkb(LT, z, v)), mkb(LE, z, s)), bOr(bNot(mkb(LT, v, z)), mkb(LE, s, z)),
             bOr(bNot(mkb(EQ, v, z)), bAnd(mkb(EQ, s, z), mkb(EQ, c, constNode(1))))};
    }
    P->inputs.push_back({name, 1, c, s, 0});
    P->m.reset();
    if (pinned()) {
        double t = std::floor((4 * pinUnit(name) - 2) * 64) / 64;
        pinTo(c, constNode(1 - t * t), constNode(1 + t * t));
        pinTo(s, constNode(2 * t), constNode(1 + t * t));
    }
    return fromId(v);
}
void inputUnitQuat(const std::string& name, Sym q[4]) {
    const char* comp[4] = {".w", ".x", ".y", ".z"};
    int v[4];
    std::string nm = uniq(name);
    int sum = -1;
    for (int i = 0; i < 4; ++i) {
        v[i] = freshVar(nm + comp[i]);
        P->inputs.push_back({nm + comp[i], 0, v[i], 0, 0});
        q[i] = fromId(v[i]);
        int sq = mk(MUL, v[i], v[i], 0, 0, "");
        sum = sum < 0 ? sq : mk(ADD, sum, sq, 0, 0, "");
    }
    if (!squareRule.count(v[0])) {
        Poly p;
        p.emplace(Mono{}, 1);
        for (int i = 1; i < 4; ++i) p.emplace(Mono{{v[i], 2}}, -1);
        squareRule[v[0]] = p;
        int e = mkb(EQ, sum, constNode(1));
        for (int i = 0; i < 4; ++i) extraDefs[v[i]].push_back(e);
    }
    P->m.reset();
    if (pinned()) {
        double t[3], n = 0;
        for (int i = 0; i < 3; ++i) t[i] = std::floor((2 * pinUnit(nm + comp[i]) - 1) * 16) / 16, n += t[i] * t[i];
        pinTo(v[0], constNode(1 - n), constNode(1 + n));
        for (int i = 0; i < 3; ++i) pinTo(v[i + 1], constNode(2 * t[i]), constNode(1 + n));
    }
}
int inputChoice(const std::string& name0, int n) {
    std::string name = uniq(name0);
    int v = choose(n);
    P->inputs.push_back({name, 2, 0, 0, v});
    return v;
}
Clock::time_point Clock::now() {
    Sym t = inputReal("clock", false, 0, 0);
    int prev = P->clockPrev < 0 ? constNode(0) : P->clockPrev;
    assertRaw(mkb(LE, prev, t.id));
    P->m.reset();
    P->clockPrev = t.id;
    return time_point(duration(t));
}

// ---------------------------------------------------------------------------------------------- stubs' contracts
void contractEq(const Sym& a, const Sym& b) {
    int e = cmp(EQ, a, b, true);
    if (e == 1) return;
    gNL = false;
    assertDefs(e);
    addCond(e);
    P->m.reset();
}
void contractLe(const Sym& a, const Sym& b) {
    int e = cmp(LE, a, b, true);
    if (e == 1) return;
    gNL = false;
    assertDefs(e);
    addCond(e);
    P->m.reset();
}
bool sameValue(const Sym& a, const Sym& b) {
    Sym d = simplify(a - b);
    return d.isConst() && d.c == 0;
}
Sym simp(const Sym& s) { return simplify(s); }
bool isConstant(const Sym& s) { return simplify(s).isConst(); }
int envChoice(int n) { return choose(n); }
// orthonormal eigenvector (c, s) to the larger eigenvalue l1 of the symmetric matrix (a b; b d), and l2 <= l1
bool eigenPair(const Sym& a, const Sym& b, const Sym& d, Sym& c, Sym& s, Sym& l1, Sym& l2) {
    const Sym df = simplify(a - d), b2 = simplify(Sym(2.0) * b);
    const Sym t = sqrt(df * df + b2 * b2), half(0.5);
    Sym inv;
    mpq_class kt;
    if (polyConst(norm(idOf(t)), kt)) {
        mpq_class t2;
        if (!polyConst(norm(idOf(simplify(df * df + b2 * b2))), t2) || t2 != kt * kt) return false;  // rounded root
        inv = kt == 0 ? Sym(std::numeric_limits<double>::infinity()) : fromId(qNode(1 / kt));
    } else
        inv = Sym(1.0) / t;  // decides whether the eigenvalues coincide
    if (inv.isConst() && !std::isfinite(inv.c)) {
        c = Sym(1.0), s = Sym(0.0), l1 = l2 = a;
        return true;
    }
    l1 = simplify(half * (a + d + t)), l2 = simplify(half * (a + d - t));
    const Sym c2 = half + half * df * inv, s2 = half - half * df * inv, cs = b * inv;
    PolyP pc = norm(idOf(c2)), ps = norm(idOf(s2)), pp = norm(idOf(cs));
    if (!pc || !ps || !pp) return false;
    const std::string key = std::to_string(idOf(df)) + "_" + std::to_string(idOf(b2));
    const int vc = freshVar("env:eig.c" + key), vs = freshVar("env:eig.s" + key);
    squareRule[vc] = *pc, squareRule[vs] = *ps;
    productRule[{std::min(vc, vs), std::max(vc, vs)}] = *pp;
    productAtoms.insert(vc), productAtoms.insert(vs);
    c = fromId(vc), s = fromId(vs);
    const std::vector<int> defs = {mkb(EQ, mk(MUL, vc, vc, 0, 0, ""), idOf(c2)), mkb(EQ, mk(MUL, vs, vs, 0, 0, ""), idOf(s2)),
                                   mkb(EQ, mk(MUL, std::min(vc, vs), std::max(vc, vs), 0, 0, ""), idOf(cs)), mkb(LE, constNode(0), vc)};
    for (int v : {vc, vs}) extraDefs[v] = defs;
    return true;
}
// unit quaternion (either sign) of a rotation matrix, known through its ten products; false if R is not known to be one
bool quatContract(const Sym R[9], Sym q[4]) {
    bool constant = true;
    for (int i = 0; i < 9; ++i) constant = constant && simplify(R[i]).isConst();
    if (constant) return false;
    auto r = [&](int i, int j) { return R[j * 3 + i]; };
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j <= i; ++j)
            if (!sameValue(simplify(r(0, i) * r(0, j) + r(1, i) * r(1, j) + r(2, i) * r(2, j)), Sym(i == j ? 1.0 : 0.0))) return false;
    const Sym det = r(0, 0) * (r(1, 1) * r(2, 2) - r(1, 2) * r(2, 1)) - r(0, 1) * (r(1, 0) * r(2, 2) - r(1, 2) * r(2, 0)) +
                    r(0, 2) * (r(1, 0) * r(2, 1) - r(1, 1) * r(2, 0));
    if (!sameValue(simplify(det), Sym(1.0))) return false;
    const Sym f(0.25), one(1.0);
    Sym p[4][4];
    for (int k = 0; k < 4; ++k) {
        Sym x = one;
        for (int i = 0; i < 3; ++i) x = (k == 0 || k == i + 1) ? x + r(i, i) : x - r(i, i);
        p[k][k] = simplify(f * x);
    }
    for (int i = 0; i < 3; ++i) {
        const int a = (i + 1) % 3, b = (i + 2) % 3;
        p[0][i + 1] = simplify(f * (r(b, a) - r(a, b)));
        p[std::min(a, b) + 1][std::max(a, b) + 1] = simplify(f * (r(b, a) + r(a, b)));
    }
    // about a coordinate axis by a multiple of a known angle
    for (int a = 0; a < 3; ++a) {
        const int b = (a + 1) % 3, c = (a + 2) % 3;
        if (!(p[b + 1][b + 1].isConst() && p[b + 1][b + 1].c == 0 && p[c + 1][c + 1].isConst() && p[c + 1][c + 1].c == 0)) continue;
        for (auto& t : angleVars())
            for (int k = 1; k <= 6; ++k) {
                const CS m = csPow(t.second, k);
                if (!sameValue(p[0][0], m.c * m.c)) continue;
                const bool same = sameValue(p[0][a + 1], m.c * m.s);
                if (!same && !sameValue(p[0][a + 1], -m.c * m.s)) continue;
                q[0] = m.c, q[1] = q[2] = q[3] = Sym(0.0), q[a + 1] = same ? m.s : -m.s;
                return true;
            }
    }
    int v[4] = {-1, -1, -1, -1};
    std::string key;
    for (int k = 0; k < 4; ++k) key += "_" + std::to_string(idOf(p[k][k]));
    for (int k = 0; k < 3; ++k) key += "_" + std::to_string(idOf(p[0][k + 1]));
    for (int k = 0; k < 4; ++k) {
        if (!norm(idOf(p[k][k]))) return false;
        if (!(p[k][k].isConst() && p[k][k].c == 0)) v[k] = freshVar("env:quat" + std::to_string(k) + key);
    }
    std::vector<int> defs;
    for (int k = 0; k < 4; ++k)
        for (int l = k; l < 4; ++l) {
            if (v[k] < 0 || v[l] < 0) continue;
            PolyP d = norm(idOf(p[k][l]));
            if (!d) return false;
            const int a = std::min(v[k], v[l]), b = std::max(v[k], v[l]);
            if (k == l) squareRule[a] = *d;
            else productRule[{a, b}] = *d, productAtoms.insert(a), productAtoms.insert(b);
            defs.push_back(mkb(EQ, mk(MUL, a, b, 0, 0, ""), idOf(p[k][l])));
        }
    for (int k = 0; k < 4; ++k) {
        q[k] = v[k] < 0 ? Sym(0.0) : fromId(v[k]);
        if (v[k] >= 0) extraDefs[v[k]] = defs;
    }
    return true;
}
void envUnitPair(const Sym& c, const Sym& s) { unitPair(c.id, s.id); }
// env variable: not an input of the replay (the native build computes it)
Sym envReal(const std::string& name0) {
    std::string name = uniq("env:" + name0);
    return fromId(freshVar(name));
}

// ---------------------------------------------------------------------------------------------- functions reached
static std::set<void*> reached;
static void* seenFn[1 << 14];
}  // namespace hs
namespace hv { extern volatile int crashArmed; }

extern "C" {
__attribute__((no_instrument_function)) void __cyg_profile_func_enter(void* f, void*) {
    if (!hv::crashArmed) return;  // static initialisation
    void*& slot = hs::seenFn[((uintptr_t)f >> 4) & ((1 << 14) - 1)];
    if (slot != f) {
        slot = f;
        hs::reached.insert(f);
    }
}
__attribute__((no_instrument_function)) void __cyg_profile_func_exit(void*, void*) {}
}

// ================================================================================================ hv API
namespace hv {
using namespace hs;
F::F(bool b) : id(b ? 1 : 0) {
    if (B.empty()) mkb(BTRUE, 0, 0);
}
F operator&&(const F& a, const F& b) { return F::node(bAnd(a.id, b.id)); }
F operator||(const F& a, const F& b) { return F::node(bOr(a.id, b.id)); }
F operator!(const F& a) { return F::node(bNot(a.id)); }
Real real(const std::string& n, K lo, K hi) { return inputReal(n, true, lo.v, hi.v); }
Real real(const std::string& n) { return inputReal(n, false, 0, 0); }
Real angle(const std::string& n) { return inputAngle(n); }
int choice(const std::string& n, int k) { return inputChoice(n, k); }
bool coin(const std::string& n) { return inputChoice(n, 2) != 0; }
void unitQuat(const std::string& n, Real q[4]) { inputUnitQuat(n, q); }
Real randomUnit(const char* what) { return inputReal(std::string("rnd:") + what, true, 0, 1); }

static F cmpF(BOp op, const Real& a, const Real& b) {
    try {
        return F::node(cmp(op, a, b, true));
    } catch (Uninit&) {
        return F(false);
    }
}
F lt(const Real& a, const Real& b) { return cmpF(LT, a, b); }
F le(const Real& a, const Real& b) { return cmpF(LE, a, b); }
F eq(const Real& a, const Real& b) {
    if (a.isPoison() || b.isPoison()) return F(false);
    if (a.isConst() && b.isConst()) {
        double s = std::fmax(1.0, std::fmax(std::fabs(a.c), std::fabs(b.c)));
        return F(a.c == b.c || std::fabs(a.c - b.c) <= 1e-7 * s);
    }
    return cmpF(EQ, a, b);
}
F near(const Real& a, const Real& b, K k) {
    const double tol = k.v;
    if (a.isPoison() || b.isPoison()) return F(false);
    Sym d = simplify(a - b);
    if (d.isConst()) return F(std::fabs(d.c) <= tol);
    if (zeroFraction(norm(d.id))) return F(true);
    return F::node(mkb(NEAR, d.id, constNode(0), tol));
}
F slt(const Real& a, const Real& b, K m) { return lt(a, b + Real(m.v)); }
F sle(const Real& a, const Real& b, K m) { return le(a, b + Real(m.v)); }
F all(const std::vector<F>& v) {
    F r(true);
    for (auto& f : v) r = r && f;
    return r;
}
F any(const std::vector<F>& v) {
    F r(false);
    for (auto& f : v) r = r || f;
    return r;
}
F defined(const Real& a) { return F(!a.isPoison()); }
F isNum(const Real& a) { return F(!a.isPoison() && (!a.isConst() || std::isfinite(a.c))); }

void assume(const F& f) {
    flushChecks();
    if (f.id == 1) return;
    if (f.id == 0) throw PathEnd{0, "assume"};
    auto kn = P->known.find(f.id);
    if (kn != P->known.end()) {
        if (kn->second) return;
        throw PathEnd{0, "assume"};
    }
    gNL = false;
    assertDefs(f.id);
    if (!modelSays(f.id, true)) {
        if (P->pos < P->prefix.size())
            P->m.reset();  // already established on the first visit
        else {
            std::unique_ptr<z3::model> m;
            Res r = query(zb(f.id, -1), false, &m);
            if (r == UNSAT) throw PathEnd{0, "assume"};
            if (r == UNKNOWN) P->unsure = true;
            P->m = std::move(m);
        }
    }
    addCond(f.id);
}
bool decide(const F& f) { return branchB(f.id); }
void check(const std::string& label, const F& f) {
    if (f.id == 0) {
        flushChecks();
        ++st.checks;
        st.labels.insert(label);
        violationHere(label, "check");
    }
    P->pending.emplace_back(label, f.id);
    if (P->pending.size() >= cfg.batch) flushChecks();
}
void fail(const std::string& label) { check(label, F(false)); }
void reach(const std::string& label) {
    flushChecks();
    if (st.witness.count(label)) return;
    std::unique_ptr<z3::model> m;
    if (currentModel(m)) {
        Record r;
        r.label = label;
        r.kind = "witness";
        r.values = valuation(*m);
        st.witness[label] = r;
        // the twin obligation assert(false) here is refuted by this model
    }
}
void note(const std::string& t) {
    if (cfg.verbose) fprintf(stderr, "note: %s\n", t.c_str());
}
void forkMinMax(bool on) { cfg.forkMinMax = on; }
bool thorough() { return cfg.tier == "thorough"; }
void deadline(K s) { cfg.pathSeconds = s.v; }
Real Clock::nowSeconds() { return hs::Clock::now().time_since_epoch().count(); }

static sigjmp_buf crashJmp;
volatile int crashArmed = 0;
static double cpuNow() { return hs::cpuSec(); }
static double pathCpu0;
static void onCrash(int sig) {
    if (sig == SIGVTALRM) {  // CPU spent in this path outside the solver
        if (!crashArmed || hs::inSolver || cpuNow() - pathCpu0 - hs::solverCpu < hs::cfg.pathSeconds) return;
    }
    if (crashArmed) siglongjmp(crashJmp, sig);
    _exit(99);
}
void guarded(const std::string& label, const std::function<void()>& f) {
    try {
        f();
    } catch (PathEnd&) {
        throw;
    } catch (Stop&) {
        throw;
    } catch (Uninit&) {
        flushChecks();
        violationHere(label + ": control flow depends on an uninitialised value", "uninit");
    } catch (Unsupported& u) {
        throw;
    } catch (BadConversion&) {
        flushChecks();
        violationHere(label + ": out-of-range conversion to an integer", "conversion");
    } catch (std::exception& e) {
        flushChecks();
        violationHere(label + ": exception " + e.what(), "exception");
    } catch (const char* e) {
        flushChecks();
        violationHere(label + ": assertion " + e, "assertion");
    }
}

struct Case {
    std::string name;
    CaseFn f;
    int shards;
    bool thoroughOnly;
};
static std::vector<Case>& cases() {
    static std::vector<Case> c;
    return c;
}
Register::Register(const char* n, CaseFn f, int s, bool t) { cases().push_back({n, f, s, t}); }
}  // namespace hv

namespace hs {
static std::string jstr(const std::string& s) {
    std::string o = "\"";
    for (char c : s) {
        if (c == '"' || c == '\\') o += '\\';
        if (c == '\n') {
            o += "\\n";
            continue;
        }
        if ((unsigned char)c < 32) continue;
        o += c;
    }
    return o + "\"";
}
static void writeRec(std::ostream& o, const Record& r) {
    o << "{\"label\":" << jstr(r.label) << ",\"kind\":" << jstr(r.kind) << ",\"values\":[";
    for (size_t i = 0; i < r.values.size(); ++i) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", r.values[i].second);
        o << (i ? "," : "") << "[" << jstr(r.values[i].first) << ",\"" << b << "\"]";
    }
    o << "]}";
}
static void writeOut(const std::string& name, int shard, double wall) {
    std::ofstream o(cfg.out);
    o << "{\"case\":" << jstr(name) << ",\"shard\":" << shard << ",\"paths\":" << st.paths << ",\"complete_paths\":" << st.complete
      << ",\"pruned\":" << st.pruned << ",\"late\":" << st.late << ",\"incomplete\":" << st.incomplete << ",\"branches\":" << st.branches
      << ",\"forks\":" << st.forks << ",\"queries\":" << st.queries << ",\"unsat\":" << st.unsat << ",\"sat\":" << st.sat
      << ",\"unknown\":" << st.unknown << ",\"cvc5_unsat\":" << st.cvc5 << ",\"model_hits\":" << st.modelHits << ",\"checks\":" << st.checks << ",\"trivial\":" << st.trivial
      << ",\"discharged\":" << st.discharged << ",\"within_margin\":" << st.withinMargin << ",\"undecided\":" << st.undecided
      << ",\"uninterpreted\":" << st.uninterpreted << ",\"unsure_paths\":" << st.unsurePaths << ",\"nodes\":" << N.size()
      << ",\"solver_s\":" << st.solverTime << ",\"max_query_s\":" << st.maxQuery << ",\"wall_s\":" << wall
      << ",\"exhausted\":" << (st.exhausted ? "true" : "false") << ",\"error\":" << jstr(st.error) << ",\"reasons\":{";
    bool first = true;
    for (auto& r : st.reasons) {
        o << (first ? "" : ",") << jstr(r.first) << ":" << r.second;
        first = false;
    }
    o << "},\"labels\":[";
    first = true;
    for (auto& l : st.labels) {
        o << (first ? "" : ",") << jstr(l);
        first = false;
    }
    o << "],\"undecided_labels\":[";
    first = true;
    for (auto& l : st.undecidedLabels) {
        o << (first ? "" : ",") << jstr(l);
        first = false;
    }
    o << "],\"violations\":[";
    for (size_t i = 0; i < st.violations.size(); ++i) {
        if (i) o << ",";
        writeRec(o, st.violations[i]);
    }
    o << "],\"witnesses\":[";
    first = true;
    for (auto& w : st.witness) {
        if (!first) o << ",";
        writeRec(o, w.second);
        first = false;
    }
    o << "],\"functions\":[";
    first = true;
    for (void* f : reached) {
        Dl_info i;
        if (dladdr(f, &i) && i.dli_sname) {
            o << (first ? "" : ",") << jstr(i.dli_sname);
            first = false;
        }
    }
    o << "]}\n";
}

static int runCase(const hv::Case& c, int shard) {
    double t0 = now();
    z3::context ctx;
    Z = &ctx;
    work.push_back({});
    static char altstack[1 << 16];
    stack_t ss{};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa{};
    sa.sa_handler = hv::onCrash;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
    struct itimerval tv{{1, 0}, {1, 0}};
    setitimer(ITIMER_VIRTUAL, &tv, nullptr);
    while (!work.empty()) {
        if (now() > cfg.deadline) break;
        if ((int)st.violations.size() >= cfg.maxViolations) break;
        auto prefix = work.back();
        work.pop_back();
        PathState ps;
        P = &ps;
        cfg.forkMinMax = cfg.forkMinMaxDefault;
        cfg.pathSeconds = 20;
        ps.prefix = prefix;
        ps.s.reset(new z3::solver(ctx));
        ++st.paths;
        int sig = sigsetjmp(hv::crashJmp, 1);
        try {
            if (sig == 0) {
                hv::crashArmed = 1;
                solverCpu = 0;
                hv::pathCpu0 = hv::cpuNow();
                c.f(shard);
                flushChecks();
                // is there still a value for this path, with all definitions it used?
                std::unique_ptr<z3::model> end;
                assertInputs();
                if (query(Z->bool_val(true), false, &end) == UNSAT) {
                    ++st.late;
                    throw PathEnd{0, "infeasible"};
                }
                ++st.complete;
            } else {
                hv::crashArmed = 1;
                solverCpu = 1e9;
                inSolver = false;
                if (sig == SIGVTALRM) violationHere("no termination", "hang");
                violationHere(std::string("crash: ") + strsignal(sig), "crash");
            }
        } catch (PathEnd& e) {
            if (e.kind == 0) ++st.pruned;
            if (e.kind == 2) {
                ++st.incomplete;
                ++st.reasons[e.why];
            }
            if (e.kind == 1) ++st.complete;
        } catch (Unsupported& u) {
            ++st.incomplete;
            ++st.reasons[std::string("unsupported: ") + u.what()];
        } catch (Uninit&) {
            try {
                violationHere("control flow depends on an uninitialised value", "uninit");
            } catch (PathEnd&) {
            }
        } catch (BadConversion&) {
            try {
                violationHere("out-of-range conversion to an integer", "conversion");
            } catch (PathEnd&) {
            }
        } catch (hv::Stop&) {
        } catch (z3::exception& e) {
            ++st.incomplete;
            ++st.reasons[std::string("z3: ") + e.msg()];
        } catch (std::exception& e) {
            try {
                flushChecks();
                violationHere(std::string("exception ") + e.what(), "exception");
            } catch (PathEnd&) {
            }
        } catch (const char* e) {
            try {
                flushChecks();
                violationHere(std::string("assertion ") + e, "assertion");
            } catch (PathEnd&) {
            }
        }
        hv::crashArmed = 0;
        if (ps.unsure) ++st.unsurePaths;
        if (cfg.verbose) fprintf(stderr, "path %ld: %zu decisions, work %zu, t=%.1f\n", st.paths, ps.taken.size(), work.size(), now() - t0);
        if (st.paths % 64 == 0) writeOut(c.name, shard, now() - t0);
        P = nullptr;
    }
    st.exhausted = work.empty() && st.budgetOut == 0 && st.skipped == 0;
    writeOut(c.name, shard, now() - t0);
    _exit(0);
}
}  // namespace hs

int main(int argc, char** argv) {
    using namespace hs;
    std::string name;
    int shard = 0;
    double budget = 60;
    bool list = false;
    cfg.out = "/dev/stdout";
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--list") list = true;
        else if (a == "--case") name = argv[++i];
        else if (a == "--shard") shard = atoi(argv[++i]);
        else if (a == "--tier") cfg.tier = argv[++i];
        else if (a == "--budget") budget = atof(argv[++i]);
        else if (a == "--out") cfg.out = argv[++i];
        else if (a == "--probes") cfg.probes = atoi(argv[++i]);
        else if (a == "--seed") cfg.seed = atoi(argv[++i]);
        else if (a == "--check-ms") cfg.checkMs = atoi(argv[++i]);
        else if (a == "--branch-ms") cfg.branchMs = atoi(argv[++i]);
        else if (a == "--smt-ms") cfg.smtMs = atoi(argv[++i]);
        else if (a == "--cvc5-ms") cfg.cvc5Ms = atoi(argv[++i]);
        else if (a == "--nlsat-first") cfg.nlsatFirst = true;
        else if (a == "--fork-minmax") cfg.forkMinMaxDefault = true;
        else if (a == "--batch") cfg.batch = atoi(argv[++i]);
        else if (a == "--max-violations") cfg.maxViolations = atoi(argv[++i]);
        else if (a == "-v") ++cfg.verbose;
    }
    if (list) {
        for (auto& c : hv::cases()) printf("%s %d %d\n", c.name.c_str(), c.shards, c.thoroughOnly ? 1 : 0);
        return 0;
    }
    struct rlimit rl{(rlim_t)12 << 30, (rlim_t)12 << 30};
    setrlimit(RLIMIT_AS, &rl);
    cfg.deadline = now() + budget;
    for (auto& c : hv::cases())
        if (c.name == name) return runCase(c, shard);
    fprintf(stderr, "no such case\n");
    return 2;
}

// heap and stack: fresh memory is recognisably uninitialised
extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p && hv::crashArmed && !hs::inSolver && n < (1u << 20)) memset(p, 0xFE, n);
    return p;
}
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
