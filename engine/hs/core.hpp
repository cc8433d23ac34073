#pragma once
#include "sym.hpp"
#include <map>
#include <set>
#include <stdexcept>
#include <string>
#include <vector>
namespace hs {
struct Uninit {};
struct BadConversion {};
struct Unsupported : std::runtime_error {
    using std::runtime_error::runtime_error;
};
struct Record {
    std::string label, kind;
    std::vector<std::pair<std::string, double>> values;
};
struct Stats {
    long paths = 0, complete = 0, pruned = 0, late = 0, incomplete = 0, branches = 0, forks = 0, queries = 0, unsat = 0, sat = 0,
         unknown = 0, cvc5 = 0, modelHits = 0, checks = 0, trivial = 0, discharged = 0, withinMargin = 0, undecided = 0,
         uninterpreted = 0, poison = 0, unsurePaths = 0, budgetOut = 0, skipped = 0;
    double solverTime = 0, maxQuery = 0;
    bool exhausted = false;
    std::string error;
    std::map<std::string, long> reasons;
    std::set<std::string> labels, undecidedLabels;
    std::vector<Record> violations;
    std::map<std::string, Record> witness;
};
struct Config {
    std::string tier = "quick", out;
    double deadline = 0, margin = 1e-4, pathSeconds = 20;
    int probes = 9, seed = 1;
    unsigned checkMs = 8000, branchMs = 1500, smtMs = 1000, cvc5Ms = 0;
    bool nlsatFirst = false, forkMinMax = false, forkMinMaxDefault = false;
    size_t maxDecisions = 4000, batch = 64;
    int maxIntValues = 16, maxViolations = 400, verbose = 0;
};
extern Stats st;
extern Config cfg;
// for contract stubs
void contractEq(const Sym&, const Sym&);
void contractLe(const Sym&, const Sym&);
bool sameValue(const Sym&, const Sym&);
bool isConstant(const Sym&);
Sym simp(const Sym&);
int envChoice(int n);
std::vector<Sym>& eigenHints();  // candidate eigenvalues, given by the harness
bool eigenPair(const Sym& a, const Sym& b, const Sym& d, Sym& c, Sym& s, Sym& l1, Sym& l2);
void envUnitPair(const Sym& c, const Sym& s);
Sym envReal(const std::string&);
Sym fromToken(const std::string&);
}  // namespace hs
