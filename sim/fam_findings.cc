// Directed executions of recorded findings: each reports its class while the finding persists.
#include "model.h"

// One number far below another: processed first with its own scale and merged later, or seen under the larger scale at once.
template <class R> static void deep_ssq(const std::string& nm, int fold) {
  typedef API<R> P;
  Lib& L = *LIBS[0];
  int st = 1 + P::num(L, false, fold);
  for (int d = 1; d < T<R>::MAXEXP / 2 + 40; d++) {
    R x[2] = {std::ldexp((R)1.4142135623730951, -d), 1};
    R* v = anew<R>(2);
    v[0] = x[0]; v[1] = x[1];
    R *a = anew<R>(st), *b = anew<R>(st), *c = anew<R>(st);
    for (R* y : {a, b, c}) { y[0] = 0; P::setzero(L, false, fold, y + 1); }
    a[0] = P::ssq(L, false, fold, 2, v, 1, a[0], a + 1);
    b[0] = P::ssq(L, false, fold, 1, v, 1, b[0], b + 1);
    c[0] = P::ssq(L, false, fold, 1, v + 1, 1, c[0], c + 1);
    c[0] = P::baddsq(L, fold, b[0], b + 1, c[0], c + 1);
    for (int i = 0; i < st; i++)
      if (!(a[i] == c[i])) {
        ev("fold %d, elements %s and 1: word %d is %s in one call, %s when merged from two", fold, hexs(x[0]).c_str(), i, hexs(a[i]).c_str(), hexs(c[i]).c_str());
        violate("findings/" + nm, "the scaled sum of squares at fold %d of {%s, 1} depends on how it was split (word %d: %s or %s)", fold, hexs(x[0]).c_str(), i, hexs(a[i]).c_str(), hexs(c[i]).c_str());
      }
  }
}
static void run_findings(const std::string& prof) {
  A.reset(1, 0);
  Proc p;
  p.start(LIBS[0]);
  In in(p);
  if (prof == "nrm2.double") deep_ssq<double>(prof, 28);
  else if (prof == "nrm2.float") deep_ssq<float>(prof, 12);
  else if (prof == "nrm2.double.ok") deep_ssq<double>(prof, 24);
  else if (prof == "nrm2.float.ok") deep_ssq<float>(prof, 8);
  else throw HarnessError{"findings: no such scenario"};
}
static RegFamily reg("findings", run_findings);
