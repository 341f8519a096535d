// All weights the greedy coordinate-descent rule can reach (ties explored).
#pragma once
#include "core.hpp"
namespace scdref {
inline std::vector<Vec> walk(const Mat& X, const Vec& y, std::vector<Vec> S, int steps, double beta, double lam, bool& cut) {
  double n = X.rows();
  for (int t = 0; t < steps; ++t) { std::vector<Vec> N; for (const Vec& w : S) { Vec g = X.transpose() * (X * w - y) / n; long f = w.size(); std::vector<double> eta(f), gain(f); double best = -1e300; for (long j = 0; j < f; ++j) { double a = w(j) - g(j) / beta, th = lam / beta, v = a > th ? a - th : a < -th ? a + th : 0; eta[j] = v - w(j); gain[j] = -eta[j] * g(j) - beta / 2 * eta[j] * eta[j] - lam * std::fabs(v) + lam * std::fabs(w(j)); best = std::max(best, gain[j]); }
      for (long j = 0; j < f; ++j) if (gain[j] >= best - 1e-9 * (1 + std::fabs(best))) { Vec u = w; u(j) += eta[j]; bool dup = false; for (auto& v : N) dup |= mc::nearM(v, u, 1e-11); if (!dup) N.push_back(u); } }
    if (N.size() > 48) { cut = true; return N; } S.swap(N); }
  return S;
}
}
