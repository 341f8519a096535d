// flags: -O1
//# SAG with every outcome of the shuffle for data sets of 1-4 samples and 1-2 features (all orders of the first 2 epochs for n = 4, of the first 3 for n <= 3), batch sizes 1..5, epoch budgets 1..7, patience 1-2, four tolerances, three update rules, three rate schedules, shuffling off/on, penalised least squares; gradients beyond 1e10; larger data sets (5..30 samples) under numbered shuffle streams
//# 3, 40, 70, 130 samples x 1, 5, 9, 17 features x batches 1, 8, 32, 64, 200 x budgets 1, 12, 60 x patience 3, 12 with numbered shuffles; log, hinge and Huber losses on 1..4, 17 samples x 1, 2, 5 features; copies of an optimiser run independently
//# optional arguments left out on 1..5, 20, 40 samples
//! a second optimize call on the same object continues from the weights reached and carries nothing else over; exhausting the epoch budget is reported by an exception; samples left over after the last full batch wait for the next shuffle
//! each stored gradient belongs to a batch position; the samples at that position change when the data are reshuffled
//# 255, 256, 257, 300, 520 samples x batches of 1 and 2 (more than 255 steps in an epoch) x three data sets x three update rules x patience 1-2, shuffled or not
//# 255 to 66000 epochs: budgets that run out, patience that does, slow convergence, rates that decay late; one or two samples, every update and decay policy
#include "sgdref.hpp"
using namespace sr;
namespace { static const double TOL[] = {0, 1e-3, 0.05, 1e3}; 
Cfg cfg(Kind k, int n) { Cfg c; c.kind = k; c.alpha = c.l1 = 0; c.batch = 1 + mc::choose(n + 1, "batch"); c.policy = mc::choose(3, "policy"); c.decay = mc::choose(3, "decay"); c.mu = 0.5; c.lr = 0.1; c.gamma = 0.5; c.step = 2; return c; } }
MC_SCENARIO(orders, 4) { int n = 1 + mc::choose(4, "n"); Cfg c = cfg(SAG, n); c.shuffle = true; int f = 1 + mc::choose(2, "f"), d = mc::choose(3, "data"); c.max_iter = n == 4 ? 2 : 3; c.nic = 1 + mc::choose(2, "patience"); c.tol = c.nic == 1 ? 1e3 : 1e3; if (n == 4 && !mc::thorough() && (c.policy == 2 || c.decay == 2)) mc::prune(); if (n == 4) c.nic = 1; if (n < 4 && c.nic == 1) c.max_iter = 2; Mat X = rows(f, d, n); Vec y = target(d, n); mc::state(n, f, d, c.batch, c.policy, c.decay, c.nic); mc::env_enumerate(3); std::string w = show(c, X, y); MC_LOG(w); all<optimizer::SAG>(loss::MSE<double>(0.3), c, X, y, Mat(Mat::Constant(f, 1, 0.5)), false, w); }
MC_SCENARIO(histories, 4) { int n = 1 + mc::choose(5, "n"); Cfg c = cfg(SAG, n); c.shuffle = mc::choose(2, "shuffle"); int f = 1 + mc::choose(2, "f"), d = mc::choose(3, "data"); c.tol = mc::pick(TOL, "tol"); c.max_iter = 1 + 2 * mc::choose(4, "epochs"); c.nic = 1 + mc::choose(2, "patience"); Mat X = rows(f, d, n); Vec y = target(d, n); mc::state(n, f, d, c.batch, c.policy, c.decay, c.nic, c.tol, c.max_iter, c.shuffle); mc::env_stream(n + c.batch); std::string w = show(c, X, y); all<optimizer::SAG>(loss::MSE<double>(0.3), c, X, y, Mat(Mat::Zero(f, 1)), true, w); }
MC_SCENARIO(larger, 3) { int n = 5 + mc::choose(26, "n"); Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; static const int B[] = {1, 3, 7, 16, 31}; c.batch = mc::pick(B, "batch"); c.policy = mc::choose(3, "policy"); c.decay = mc::choose(3, "decay"); c.mu = 0.9; c.lr = 0.01; c.gamma = 0.3; c.step = 3; c.nic = 1 + mc::choose(5, "patience"); c.tol = 1e-3; c.max_iter = 25; c.shuffle = true; int f = 1 + n % 4; Mat X(n, f); Vec y(n); for (int i = 0; i < n; ++i) { for (int j = 0; j < f; ++j) X(i, j) = j == 0 ? (i - n / 2) * 0.125 : ((i * 7 + j * 3) % 5 - 2); y(i) = 1 + X(i, 0) * 2 + (i % 3); } mc::state(n, c.batch, c.policy, c.decay, c.nic); mc::env_stream(n); all<optimizer::SAG>(loss::MSE<double>(), c, X, y, Mat(Mat::Zero(f, 1)), true, show(c, X, y)); }
MC_SCENARIO(clipping, 2) { int s = mc::choose(2, "sign"), n = 1 + mc::choose(3, "n"); Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; c.batch = 1 + mc::choose(n, "batch"); c.policy = 0; c.decay = 0; c.lr = 1e-3; c.mu = 0; c.gamma = 1; c.step = 1; c.nic = 1; c.tol = 1e30; c.max_iter = 3; c.shuffle = false; Mat X = rows(1, 1, n) * 1e6; Vec y = target(1, n) * (s ? -1e9 : 1e9); mc::state(X, y); all<optimizer::SAG>(loss::MSE<double>(), c, X, y, Mat(Mat::Zero(1, 1)), false, show(c, X, y)); }
MC_SCENARIO(wide_runs, 4) { Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; wide<optimizer::SAG>(c); }
MC_SCENARIO(other_losses, 4) { Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; losses<optimizer::SAG>(c); }
MC_SCENARIO(left_out, 2) { defaults<optimizer::SAG>(24); }
MC_SCENARIO(many_batches_of_an_epoch, 3) { Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; many_batches<optimizer::SAG>(c); }
MC_SCENARIO(long_runs, 4) { Cfg c; c.kind = SAG; c.alpha = c.l1 = 0; many_epochs<optimizer::SAG>(c); }
