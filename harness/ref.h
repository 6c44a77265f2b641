// Executable specification: textbook formulas, plain loops, long double; shares no code with the library.
#pragma once
#include "common.h"
namespace ref {
using arma::mat; using arma::vec; using arma::uword; using arma::cube;
typedef long double ld;
struct Quality { double rcond = 1; bool tie = false; };      // smallest pivot ratio met, whether a discrete choice was within rounding
// spatial distance between two points in the metric of the scenario
double dist2(const KV& k, double ax, double ay, double bx, double by);
// distance from focus f to all data points (f row of fp with time ft)
vec distRow(const KV& k, const mat& fp, uword f, const mat& dp, const vec* ft = nullptr, const vec* dt = nullptr);
vec kernel(const vec& d, double bw, bool adaptive, int kern);
// n_data x n_focus
mat weightMatrix(const KV& k, double bw, const mat& fp, const mat& dp, const vec* ft = nullptr, const vec* dt = nullptr);
bool inverse(const mat& a, mat& out, double& rcond);
struct Wls { vec beta; mat C; bool ok = true; double rcond = 1; };
Wls wls(const mat& x, const vec& y, const vec& w);
struct Fit { bool ok = true; double rcond = 1; mat betas, se, S; cube C; vec shat, qdiag; double RSS, AIC, AICc, ENP, EDF, R2, R2adj; };
Fit fit(const mat& x, const vec& y, const mat& W);                 // linear local regression at every observation
mat coef(const mat& x, const vec& y, const mat& W, bool& ok, double& rcond);
double critCV(const mat& x, const vec& y, mat W, bool& ok, double& rcond);
double critAICc(const mat& x, const vec& y, const mat& W, bool& ok, double& rcond);
void put(Out& o, const Fit& f, bool S, bool C, bool aic = true);
// expected observable results of a scenario that does no search; ok=false: no verdict (ill conditioned)
struct Exp { Out o; bool ok = true; double rcond = 1; std::string why; bool tie = false; };
Exp expect(const KV& k);
// whether the local problems of a scenario (at the bandwidth given) are conditioned well enough for results to be comparable
bool wellPosed(const KV& k, double rc = 1e-7);
double maxDist(const KV& k, const mat& c);
vec singular(const mat& a, mat* V = nullptr);                     // descending, one-sided Jacobi
// golden section over [lo,hi]; evals returns the evaluated finite points
struct Golden { double x = 0; bool tie = false, failed = false; std::map<double, double> evals; };
Golden golden(double lo, double hi, bool adaptive, const std::function<double(double)>& f);
struct Glm { bool ok = true; double rcond = 1; mat betas, se, S; vec wt2; double dev = 0, AIC = 0, AICc = 0, R2 = 0, nulldev = 0, gdev = 0, llik = 0, trS = 0, trSS = 0; };
Glm glmFit(const KV& k, const mat& x, const vec& y, const mat& Wd, const mat& Wp);   // Wd: weights at data, Wp: at regression points
double ggwrCrit(const KV& k, const mat& x, const vec& y, mat W, bool cv, bool& ok, double& rcond);
vec lcrRow(const KV& k, const mat& x, const vec& y, const vec& w, double& rcond, bool& ok, bool& tie);
double lcrCV(const KV& k, const mat& x, const vec& y, mat W, double& rcond, bool& ok, bool& tie);
Exp expectScalAt(const KV& k, double scale, double penalty);      // given the parameters found by the search
bool scalSearch(const KV& k, double& b, double& a, bool& converged);   // false: no verdict
double scalCrit(const KV& k, double b, double a, bool& ok, double& rcond);
Exp expectPred(const KV& k, const mat& locs, double scale = 0, double penalty = 0);
double gwdrCrit(const KV& k, const vec& bw, bool cv, bool& ok, double& rc);
bool gwdrSearch(const KV& k, vec& bw, bool& converged);
Exp expectGgwr(const KV& k); Exp expectLcr(const KV& k); Exp expectScal(const KV& k); Exp expectGwss(const KV& k); Exp expectGwpca(const KV& k); Exp expectGwda(const KV& k); Exp expectRobust(const KV& k); Exp expectMgwr(const KV& k);
}
