// Native replay of a solver model: inputs come from a file of `name value` lines.
#include "hv.hpp"
#include <unistd.h>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>

namespace hv {
static std::map<std::string, double> in;
static std::map<std::string, int> cnt;
static double clockPrev = 0;
static bool isThorough = false;
static std::string expectLabel;
static std::vector<std::string> failed, reached;

static std::string uniq(const std::string& n0) {
    std::string n = n0;
    for (char& c : n)
        if (c == ' ') c = '_';
    int k = cnt[n]++;
    return k ? n + "#" + std::to_string(k) : n;
}
static void finish(int rc, const std::string& msg) {
    std::cout.flush();
    printf("\nHV-RESULT %s\n", msg.c_str());
    for (auto& l : failed) printf("HV-FAILED %s\n", l.c_str());
    for (auto& l : reached) printf("HV-REACHED %s\n", l.c_str());
    fflush(stdout);
    _exit(rc);
}
static double get(const std::string& n, double dflt) {
    auto it = in.find(n);
    return it == in.end() ? dflt : it->second;
}
Real real(const std::string& n, double lo, double hi) {
    double v = get(uniq(n), lo > 0 || hi < 0 ? lo : 0);
    return v < lo ? lo : v > hi ? hi : v;  // decimal rounding of an algebraic endpoint
}
Real real(const std::string& n) { return get(uniq(n), 0); }
Real angle(const std::string& n) { return get(uniq(n), 0); }
int choice(const std::string& n, int) { return (int)get(uniq(n), 0); }
bool coin(const std::string& n) { return get(uniq(n), 0) != 0; }
void unitQuat(const std::string& n, Real q[4]) {
    const char* c[4] = {".w", ".x", ".y", ".z"};
    std::string nm = uniq(n);
    double s = 0;
    for (int i = 0; i < 4; ++i) {
        q[i] = get(nm + c[i], i == 0);
        s += q[i] * q[i];
    }
    s = std::sqrt(s);
    for (int i = 0; i < 4; ++i) q[i] /= s;
}
Real randomUnit(const char* what) {
    double v = get(uniq(std::string("rnd:") + what), 0);
    return v < 0 ? 0 : v > 1 ? 1 : v;
}
static double scale(double a, double b) { return std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))); }
static bool bad(double a) {
    uint64_t u;
    memcpy(&u, &a, 8);
    return u == 0xFEFEFEFEFEFEFEFEull;
}
F lt(const Real& a, const Real& b) { return !bad(a) && !bad(b) && a < b; }
F le(const Real& a, const Real& b) { return !bad(a) && !bad(b) && a <= b; }
F eq(const Real& a, const Real& b) {
    return !bad(a) && !bad(b) && (a == b || std::fabs(a - b) <= 1e-7 * scale(a, b));
}
F near(const Real& a, const Real& b, double tol) { return !bad(a) && !bad(b) && std::fabs(a - b) <= tol * 1.001; }
F slt(const Real& a, const Real& b, double m) { return !bad(a) && !bad(b) && a < b + m; }
F sle(const Real& a, const Real& b, double m) { return !bad(a) && !bad(b) && a <= b + m; }
F all(const std::vector<F>& v) {
    for (bool f : v)
        if (!f) return false;
    return true;
}
F any(const std::vector<F>& v) {
    for (bool f : v)
        if (f) return true;
    return false;
}
F defined(const Real& a) { return !bad(a); }
F isNum(const Real& a) { return !bad(a) && std::isfinite(a); }

void assume(const F& f) {
    if (!f) finish(3, "assumption not met");
}
bool decide(const F& f) { return f; }
void check(const std::string& label, const F& f) {
    if (!f) {
        failed.push_back(label);
        finish(1, "check failed");
    }
}
void fail(const std::string& label) { check(label, false); }
void reach(const std::string& label) { reached.push_back(label); }
void note(const std::string&) {}
void forkMinMax(bool) {}
void deadline(double) {}
bool thorough() { return isThorough; }
Real Clock::nowSeconds() {
    double t = get(uniq("clock"), clockPrev);
    if (t < clockPrev) t = clockPrev;
    return clockPrev = t;
}
void guarded(const std::string& label, const std::function<void()>& f) {
    try {
        f();
    } catch (Stop&) {
        throw;
    } catch (std::exception& e) {
        failed.push_back(label + ": exception " + e.what());
        finish(1, "exception");
    } catch (const char* e) {
        failed.push_back(label + ": assertion " + e);
        finish(1, "assertion");
    }
}
struct Case {
    std::string name;
    CaseFn f;
};
static std::vector<Case>& cases() {
    static std::vector<Case> c;
    return c;
}
Register::Register(const char* n, CaseFn f, int, bool) { cases().push_back({n, f}); }

static void onSignal(int s) {
    failed.push_back(std::string("crash: ") + strsignal(s));
    finish(1, "crash");
}
}  // namespace hv

extern "C" void* __libc_malloc(size_t);
extern "C" void* malloc(size_t n) {
    void* p = __libc_malloc(n);
    if (p) memset(p, 0xFE, n);
    return p;
}
void* operator new(size_t n) {
    void* p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void operator delete(void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }

int main(int argc, char** argv) {
    using namespace hv;
    std::string name, file;
    int shard = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--case") name = argv[++i];
        else if (a == "--shard") shard = atoi(argv[++i]);
        else if (a == "--replay") file = argv[++i];
        else if (a == "--tier") isThorough = std::string(argv[++i]) == "thorough";
    }
    std::ifstream f(file);
    std::string line;
    while (std::getline(f, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream ss(line);
        std::string k;
        double v;
        if (ss >> k >> v) in[k] = v;
    }
    static char alt[1 << 16];
    stack_t st{};
    st.ss_sp = alt;
    st.ss_size = sizeof alt;
    sigaltstack(&st, nullptr);
    struct sigaction sa{};
    sa.sa_handler = onSignal;
    sa.sa_flags = SA_ONSTACK;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGABRT, SIGALRM}) sigaction(s, &sa, nullptr);
    alarm(30);
    for (auto& c : cases())
        if (c.name == name) {
            try {
                c.f(shard);
            } catch (Stop&) {
            } catch (std::exception& e) {
                failed.push_back(std::string("exception ") + e.what());
                finish(1, "exception");
            } catch (const char* e) {
                failed.push_back(std::string("assertion ") + e);
                finish(1, "assertion");
            }
            finish(0, "ok");
        }
    finish(2, "no such case");
}
