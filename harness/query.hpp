// Everything that can be asked of a solver object, as one comparable record.
#pragma once
#include "solve.hpp"
namespace qg {
using namespace qpOASES;
inline FILE* devNull() { static FILE* f = fopen("/dev/null", "w"); return f; }
inline std::string bitsOf(double v) { char b[40]; snprintf(b, sizeof b, "%a", v); return b; }
inline std::string idx(Indexlist* l) { int_t* p = nullptr; l->getNumberArray(&p); std::string s = "("; for (int_t i = 0; i < l->getLength(); i++) s += std::to_string((long)p[i]) + " "; return s + ")"; }
inline std::string optStr(const Options& o) {
    std::ostringstream s; s.precision(17);
    s << o.printLevel << " " << o.enableRamping << o.enableFarBounds << o.enableFlippingBounds << o.enableRegularisation << o.enableFullLITests << o.enableNZCTests << " " << o.enableDriftCorrection << " " << o.enableCholeskyRefactorisation << " " << o.enableEqualities << " "
      << o.terminationTolerance << " " << o.boundTolerance << " " << o.boundRelaxation << " " << o.epsNum << " " << o.epsDen << " " << o.maxPrimalJump << " " << o.maxDualJump << " " << o.initialRamping << " " << o.finalRamping << " " << o.initialFarBounds << " " << o.growFarBounds << " " << (int)o.initialStatusBounds << " " << o.epsFlipping << " " << o.numRegularisationSteps << " " << o.epsRegularisation << " " << o.numRefinementSteps << " " << o.epsIterRef << " " << o.epsLITests << " " << o.epsNZCTests << " " << o.rcondSMin << " " << o.enableInertiaCorrection << " " << o.enableDropInfeasibles << " " << o.dropBoundPriority << " " << o.dropEqConPriority << " " << o.dropIneqConPriority;
    return s.str();
}
inline void dumpC(std::ostringstream&, QProblemB&) {}
inline void dumpC(std::ostringstream& s, QProblem& p) {
    Constraints k; p.getConstraints(k); int m = (int)p.getNC(); s << " C:";
    for (int i = 0; i < m; i++) s << (int)k.getStatus(i) << "/" << (int)k.getType(i) << " ";
    s << idx(k.getActive()) << idx(k.getInactive()) << " " << p.getNC() << " " << p.getNEC() << " " << p.getNAC() << " " << p.getNIAC();
    std::vector<BooleanType> f(p.getNV() ? p.getNV() : 1); p.getFreeVariablesFlags(f.data()); for (int i = 0; i < p.getNV(); i++) s << (int)f[i];
    std::vector<double> wc(m + 1, 77); p.getWorkingSetConstraints(wc.data()); for (double v : wc) s << v << " ";
}
// a full, bit-exact textual snapshot of the observable state
template <class P> std::string snapshot(P& p, int n, int m) {
    std::ostringstream s; Vec x(n + 1, 77), y(n + m + 1, 77);
    s << "rx=" << (int)p.getPrimalSolution(x.data()) << " ry=" << (int)p.getDualSolution(y.data()) << " x=";
    for (double v : x) s << bitsOf(v) << " "; s << "y="; for (double v : y) s << bitsOf(v) << " ";
    s << "obj=" << bitsOf(p.getObjVal()) << " st=" << (int)p.getStatus() << p.isInitialised() << p.isSolved() << p.isInfeasible() << p.isUnbounded() << " ht=" << (int)p.getHessianType() << " reg=" << p.usingRegularisation() << " count=" << p.getCount();
    Bounds b; p.getBounds(b); s << " B:"; for (int i = 0; i < n; i++) s << (int)b.getStatus(i) << "/" << (int)b.getType(i) << " "; s << idx(b.getFree()) << idx(b.getFixed());
    s << p.getNV() << " " << p.getNFR() << " " << p.getNFX() << " " << p.getNFV() << " " << p.getNZ();
    Vec w(n + m + 1, 77); p.getWorkingSet(w.data()); s << " W:"; for (double v : w) s << v << " "; Vec wb(n + 1, 77); p.getWorkingSetBounds(wb.data()); for (double v : wb) s << v << " ";
    dumpC(s, p); s << " opt " << optStr(p.getOptions()); return s.str();
}
} // namespace qg
