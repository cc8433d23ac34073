// Harness API. The same harness source is compiled twice: with HV_SYM (double -> hs::Sym, inputs are
// symbolic, checks are SMT queries) and natively (inputs come from a replay file, checks are evaluated).
#pragma once
#ifdef HV_SYM
#include "sym.hpp"
namespace hv {
typedef hs::Sym Real;
struct K {  // a concrete number
    double v;
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    K(T x) : v(static_cast<double>(x)) {}
    K(const hs::Sym& x) : v(x.toConst()) {}
    operator const double&() const { return v; }
};
}
#else
#include <chrono>
#include <cmath>
#include <cstdint>
#include <limits>
namespace hv { typedef double Real; typedef double K; }
#endif
#include <functional>
#include <string>
#include <vector>

namespace hv {

#ifdef HV_SYM
struct F {  // formula
    int32_t id;
    F(bool b);
    static F node(int32_t n) { F f(false); f.id = n; return f; }
};
F operator&&(const F&, const F&);
F operator||(const F&, const F&);
F operator!(const F&);
#else
typedef bool F;
#endif

// --- inputs -------------------------------------------------------------------------------------------------
Real real(const std::string& name, K lo, K hi);  // lo <= x <= hi
Real real(const std::string& name);                        // unconstrained
Real angle(const std::string& name);                       // angle in (-pi, pi], known through (cos, sin)
int choice(const std::string& name, int n);                // 0 .. n-1, every value is explored
bool coin(const std::string& name);
void unitQuat(const std::string& name, Real q[4]);         // w x y z with w^2+x^2+y^2+z^2 = 1
Real randomUnit(const char* what);                         // an environment's random number in [0,1]

// --- formulas (never fork) ------------------------------------------------------------------------------------
F lt(const Real& a, const Real& b);
F le(const Real& a, const Real& b);
F eq(const Real& a, const Real& b);              // exact over the reals; within 1e-7 (relative) natively
F near(const Real& a, const Real& b, K tol);
F slt(const Real& a, const Real& b, K margin = 1e-6);  // a < b, natively decided with a margin in favour of true
F sle(const Real& a, const Real& b, K margin = 1e-6);
inline F gt(const Real& a, const Real& b) { return lt(b, a); }
inline F ge(const Real& a, const Real& b) { return le(b, a); }
#ifdef HV_SYM
inline F operator_not(const F& a) { return !a; }
#endif
inline F implies(const F& a, const F& b) { return !a || b; }
F all(const std::vector<F>&);
F any(const std::vector<F>&);
F defined(const Real& a);    // not uninitialised memory
F isNum(const Real& a);      // neither NaN nor infinite nor uninitialised

inline int asInt(const Real& a) { K k(a); return (int)(const double&)k; }  // a concrete whole number

// --- control ----------------------------------------------------------------------------------------------------
void assume(const F& f);
bool decide(const F& f);                            // fork on a formula
void check(const std::string& label, const F& f);   // the property
void fail(const std::string& label);                // unconditional violation if reachable
void reach(const std::string& label);               // reachability witness (vacuity guard)
void note(const std::string& text);
void forkMinMax(bool on);                           // fork in fmin/fmax/fabs instead of building if-then-else terms
void deadline(K seconds);                      // hang limit of one path
bool thorough();

// Run `f`; an exception, assertion failure or crash inside it is a violation labelled `label`.
void guarded(const std::string& label, const std::function<void()>& f);

struct Clock {
    static Real nowSeconds();
};

typedef void (*CaseFn)(int shard);
struct Register {
    Register(const char* name, CaseFn f, int shards, bool thoroughOnly);
};
struct Stop {};

#define HV_CASE(name) HV_CASE_N(name, 1)
#define HV_CASE_N(name, n)                                          \
    static void name(int shard);                                    \
    static ::hv::Register hv_reg_##name(#name, &name, n, false);    \
    static void name([[maybe_unused]] int shard)
#define HV_CASE_T(name, n)                                          \
    static void name(int shard);                                    \
    static ::hv::Register hv_reg_##name(#name, &name, n, true);     \
    static void name([[maybe_unused]] int shard)

}  // namespace hv

#ifndef HV_SYM
namespace hs {
struct Clock {
    using rep = double;
    using period = std::ratio<1>;
    using duration = std::chrono::duration<double>;
    using time_point = std::chrono::time_point<Clock, duration>;
    static constexpr bool is_steady = true;
    static time_point now() { return time_point(duration(hv::Clock::nowSeconds())); }
};
}  // namespace hs
#endif
namespace hv {
inline Real rand_() { return randomUnit("rand") * Real(2147483647.0); }
inline int& randSeedSink() { static int x; return x; }
}
