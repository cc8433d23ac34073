// Symbolic scalar that stands in for `double` when /repo's sources are executed symbolically.
#pragma once
#include <chrono>
#include <cmath>
#include <complex>
#include <cstdint>
#include <functional>
#include <iosfwd>
#include <limits>
#include <string>
#include <type_traits>
#include <vector>

// Conversions double -> integer are explicit; a source that relies on an implicit one is recompiled with
// -DHS_IMPLICIT (conversions differ only in overload resolution, the layout is the same).
#ifdef HS_IMPLICIT
#define HS_EXPLICIT
#else
#define HS_EXPLICIT explicit
#endif

namespace hs {
struct Sym;
}
namespace std {
template <>
struct is_floating_point<hs::Sym> : true_type {};
template <>
struct is_floating_point<const hs::Sym> : true_type {};
}  // namespace std
namespace hs {
template <class T>
using IsNum = typename std::enable_if<std::is_arithmetic<T>::value && !std::is_same<T, Sym>::value>::type;

// A value is a constant (id == 0), a node of the global expression DAG (0 < id < 0x40000000) or
// uninitialised memory (any other id: automatic and heap storage is filled with 0xFE bytes).
struct Sym {
    int32_t id;
    int32_t pad;
    double c;

    Sym() = default;
    template <class T, class = IsNum<T>>
    constexpr Sym(T v) : id(0), pad(0), c(static_cast<double>(v)) {}
    static Sym node(int32_t n) {
        Sym s(0);
        s.id = n;
        return s;
    }
    constexpr bool isConst() const { return id == 0; }
    bool isPoison() const { return id < 0 || id >= 0x40000000; }

    // static_cast<int>(x): fork until the truncated value is concrete.
    template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
    HS_EXPLICIT operator T() const {
        return static_cast<T>(toInteger());
    }
    explicit operator bool() const;
    explicit operator float() const { return static_cast<float>(toConst()); }
    explicit operator double() const { return toConst(); }
    long long toInteger() const;  // truncation towards zero; may fork
    double toConst() const;       // throws unless constant

    constexpr Sym operator-() const;
    constexpr Sym operator+() const { return *this; }
    constexpr Sym& operator+=(const Sym& o);
    constexpr Sym& operator-=(const Sym& o);
    constexpr Sym& operator*=(const Sym& o);
    constexpr Sym& operator/=(const Sym& o);
    constexpr Sym& operator++();
    constexpr Sym& operator--();
    constexpr Sym operator++(int);
    constexpr Sym operator--(int);
};

// Operations on constants are constexpr (a source may use them in constant expressions).
namespace slow {
Sym add(const Sym&, const Sym&);
Sym sub(const Sym&, const Sym&);
Sym mul(const Sym&, const Sym&);
Sym div(const Sym&, const Sym&);
Sym neg(const Sym&);
bool lt(const Sym&, const Sym&);
bool le(const Sym&, const Sym&);
bool eq(const Sym&, const Sym&);
Sym sqrt(const Sym&);
Sym fabs(const Sym&);
Sym fmin(const Sym&, const Sym&);
Sym fmax(const Sym&, const Sym&);
}  // namespace slow
#define HS_OP(name, R, op, f) \
    constexpr R name(const Sym& a, const Sym& b) { return a.id == 0 && b.id == 0 ? R(a.c op b.c) : slow::f; }
HS_OP(operator+, Sym, +, add(a, b))
HS_OP(operator-, Sym, -, sub(a, b))
HS_OP(operator*, Sym, *, mul(a, b))
HS_OP(operator/, Sym, /, div(a, b))
HS_OP(operator<, bool, <, lt(a, b))
HS_OP(operator>, bool, >, lt(b, a))
HS_OP(operator<=, bool, <=, le(a, b))
HS_OP(operator>=, bool, >=, le(b, a))
HS_OP(operator==, bool, ==, eq(a, b))
HS_OP(operator!=, bool, !=, eq(a, b) == false)
#undef HS_OP
constexpr Sym Sym::operator-() const { return id == 0 ? Sym(-c) : slow::neg(*this); }
constexpr Sym& Sym::operator+=(const Sym& o) { return *this = *this + o; }
constexpr Sym& Sym::operator-=(const Sym& o) { return *this = *this - o; }
constexpr Sym& Sym::operator*=(const Sym& o) { return *this = *this * o; }
constexpr Sym& Sym::operator/=(const Sym& o) { return *this = *this / o; }
constexpr Sym& Sym::operator++() { return *this = *this + Sym(1.0); }
constexpr Sym& Sym::operator--() { return *this = *this - Sym(1.0); }
constexpr Sym Sym::operator++(int) {
    const Sym r = *this;
    ++*this;
    return r;
}
constexpr Sym Sym::operator--(int) {
    const Sym r = *this;
    --*this;
    return r;
}
#define HS_MIXED(op, R)                                                                            \
    template <class T, class = IsNum<T>>        \
    constexpr R operator op(const Sym& a, T b) { return a op Sym(b); }                                \
    template <class T, class = IsNum<T>>        \
    constexpr R operator op(T a, const Sym& b) { return Sym(a) op b; }
HS_MIXED(+, Sym)
HS_MIXED(-, Sym)
HS_MIXED(*, Sym)
HS_MIXED(/, Sym)
HS_MIXED(<, bool)
HS_MIXED(>, bool)
HS_MIXED(<=, bool)
HS_MIXED(>=, bool)
HS_MIXED(==, bool)
HS_MIXED(!=, bool)
#undef HS_MIXED

// Result of floor/ceil/round/trunc: a Sym that also converts implicitly to integers.
struct SymInt : Sym {
    SymInt(const Sym& s) : Sym(s) {}
    template <class T, class = typename std::enable_if<std::is_integral<T>::value && !std::is_same<T, bool>::value>::type>
    operator T() const {
        return static_cast<T>(toInteger());
    }
};
template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
inline SymInt operator+(const SymInt& a, T b) { return SymInt(static_cast<const Sym&>(a) + Sym(b)); }
template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
inline SymInt operator-(const SymInt& a, T b) { return SymInt(static_cast<const Sym&>(a) - Sym(b)); }
template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
inline SymInt operator+(T a, const SymInt& b) { return SymInt(Sym(a) + static_cast<const Sym&>(b)); }
template <class T, class = typename std::enable_if<std::is_integral<T>::value>::type>
inline SymInt operator*(const SymInt& a, T b) { return SymInt(static_cast<const Sym&>(a) * Sym(b)); }

constexpr Sym sqrt(const Sym& x) { return x.id == 0 ? Sym(__builtin_sqrt(x.c)) : slow::sqrt(x); }
Sym cbrt(const Sym&);
Sym sin(const Sym&);
Sym cos(const Sym&);
Sym tan(const Sym&);
Sym asin(const Sym&);
Sym acos(const Sym&);
Sym atan(const Sym&);
Sym atan2(const Sym&, const Sym&);
Sym exp(const Sym&);
Sym log(const Sym&);
Sym pow(const Sym&, const Sym&);
constexpr Sym fabs(const Sym& x) { return x.id == 0 ? Sym(__builtin_fabs(x.c)) : slow::fabs(x); }
constexpr Sym abs(const Sym& x) { return fabs(x); }
constexpr Sym fmin(const Sym& a, const Sym& b) { return a.id == 0 && b.id == 0 ? Sym(__builtin_fmin(a.c, b.c)) : slow::fmin(a, b); }
constexpr Sym fmax(const Sym& a, const Sym& b) { return a.id == 0 && b.id == 0 ? Sym(__builtin_fmax(a.c, b.c)) : slow::fmax(a, b); }
constexpr Sym min(const Sym& a, const Sym& b) { return fmin(a, b); }
constexpr Sym max(const Sym& a, const Sym& b) { return fmax(a, b); }
Sym hypot(const Sym&, const Sym&);
inline Sym hypot(const Sym& a, const Sym& b, const Sym& c) { return sqrt(a * a + b * b + c * c); }
Sym fmod(const Sym&, const Sym&);
SymInt floor(const Sym&);
SymInt ceil(const Sym&);
SymInt trunc(const Sym&);
SymInt round(const Sym&);
inline SymInt rint(const Sym& x) { return round(x); }
inline SymInt nearbyint(const Sym& x) { return round(x); }
inline Sym remainder(const Sym& a, const Sym& b) { return a - Sym(round(a / b)) * b; }
inline Sym log2(const Sym& x) { return log(x) / Sym(0.69314718055994530942); }
inline Sym log10(const Sym& x) { return log(x) / Sym(2.30258509299404568402); }
inline Sym log1p(const Sym& x) { return log(Sym(1.0) + x); }
inline Sym exp2(const Sym& x) { return pow(Sym(2.0), x); }
inline Sym expm1(const Sym& x) { return exp(x) - Sym(1.0); }
inline Sym sinh(const Sym& x) { return (exp(x) - exp(-x)) / Sym(2.0); }
inline Sym cosh(const Sym& x) { return (exp(x) + exp(-x)) / Sym(2.0); }
inline Sym tanh(const Sym& x) { return sinh(x) / cosh(x); }
inline long long llround(const Sym& x) { return round(x).toInteger(); }
inline long lrint(const Sym& x) { return static_cast<long>(round(x).toInteger()); }
inline long lround(const Sym& x) { return static_cast<long>(round(x).toInteger()); }
Sym copysign(const Sym&, const Sym&);
bool signbit(const Sym&);
bool isnan(const Sym&);
bool isinf(const Sym&);
bool isfinite(const Sym&);
inline void sincos(const Sym& x, Sym* s, Sym* c) {
    *s = sin(x);
    *c = cos(x);
}
inline Sym fma(const Sym& a, const Sym& b, const Sym& c) { return a * b + c; }
inline Sym fdim(const Sym& a, const Sym& b) { return fmax(a - b, Sym(0.0)); }

std::ostream& operator<<(std::ostream&, const Sym&);
std::istream& operator>>(std::istream&, Sym&);
std::string to_string(const Sym&);
// text -> number (the text of a symbolic value is "@node"); same errors as the standard functions
namespace text {
Sym stod(const std::string&, size_t* = nullptr);
inline Sym stof(const std::string& s, size_t* n = nullptr) { return text::stod(s, n); }
inline Sym stold(const std::string& s, size_t* n = nullptr) { return text::stod(s, n); }
Sym strtod(const char*, char**);
inline Sym atof(const char* s) { return text::strtod(s, nullptr); }
}  // namespace text

// An arbitrary non-decreasing clock (shared with the native replay build).
struct Clock {
    using rep = Sym;
    using period = std::ratio<1>;
    using duration = std::chrono::duration<Sym>;
    using time_point = std::chrono::time_point<Clock, duration>;
    static constexpr bool is_steady = true;
    static time_point now();
};

}  // namespace hs

namespace std {
using hs::abs;
using hs::acos;
using hs::asin;
using hs::atan;
using hs::atan2;
using hs::cbrt;
using hs::ceil;
using hs::copysign;
using hs::cos;
using hs::exp;
using hs::fabs;
using hs::fdim;
using hs::floor;
using hs::fma;
using hs::fmax;
using hs::fmin;
using hs::fmod;
using hs::hypot;
using hs::isfinite;
using hs::isinf;
using hs::isnan;
using hs::log;
using hs::lround;
using hs::cosh;
using hs::exp2;
using hs::expm1;
using hs::llround;
using hs::log10;
using hs::log1p;
using hs::log2;
using hs::lrint;
using hs::nearbyint;
using hs::remainder;
using hs::sinh;
using hs::tanh;
using hs::max;
using hs::min;
using hs::pow;
using hs::rint;
using hs::round;
using hs::signbit;
using hs::sin;
using hs::sqrt;
using hs::tan;
using hs::to_string;
using hs::trunc;

template <>
struct numeric_limits<hs::Sym> {
    static constexpr bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false,
                          has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = true, is_iec559 = true,
                          is_bounded = true, is_modulo = false, traps = false, tinyness_before = false;
    static constexpr int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2, min_exponent = -1021,
                         max_exponent = 1024, min_exponent10 = -307, max_exponent10 = 308;
    static constexpr float_round_style round_style = round_to_nearest;
    static constexpr hs::Sym min() { return hs::Sym(numeric_limits<double>::min()); }
    static constexpr hs::Sym max() { return hs::Sym(numeric_limits<double>::max()); }
    static constexpr hs::Sym lowest() { return hs::Sym(numeric_limits<double>::lowest()); }
    static constexpr hs::Sym epsilon() { return hs::Sym(numeric_limits<double>::epsilon()); }
    static constexpr hs::Sym round_error() { return hs::Sym(0.5); }
    static constexpr hs::Sym infinity() { return hs::Sym(numeric_limits<double>::infinity()); }
    static constexpr hs::Sym quiet_NaN() { return hs::Sym(numeric_limits<double>::quiet_NaN()); }
    static constexpr hs::Sym signaling_NaN() { return hs::Sym(numeric_limits<double>::quiet_NaN()); }
    static constexpr hs::Sym denorm_min() { return hs::Sym(numeric_limits<double>::denorm_min()); }
};
namespace chrono {
template <>
struct treat_as_floating_point<hs::Sym> : true_type {};
}  // namespace chrono
#define HS_COMMON(T)                                            \
    template <>                                                 \
    struct common_type<hs::Sym, T> { using type = hs::Sym; };   \
    template <>                                                 \
    struct common_type<T, hs::Sym> { using type = hs::Sym; };
HS_COMMON(int)
HS_COMMON(long)
HS_COMMON(long long)
HS_COMMON(double)
HS_COMMON(unsigned)
HS_COMMON(unsigned long)
#undef HS_COMMON
}  // namespace std
