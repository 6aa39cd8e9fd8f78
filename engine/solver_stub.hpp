// Force-included into the symbolic build: Eigen's iterative solvers are replaced by a contract.  The harness hook
// receives the dense matrix, the right-hand side, and returns either "converged" with an x of its choice (typically
// a fresh x assumed to satisfy A x = b) or "not converged".  The native replay uses Eigen's real solvers.
#pragma once
#include <Eigen/Sparse>
#include <vector>
extern "C" int sx_solver_stub(int n, const double* A, const double* b, double* x);
extern "C" double sx_solver_error(); // relative error after a failure
namespace sxstub {
template <class Mat> class Solver {
    Eigen::MatrixXd A;
    mutable Eigen::ComputationInfo inf = Eigen::Success;
public:
    Solver() {}
    template <class M> explicit Solver(const M& m) { compute(m); }
    template <class M> Solver& compute(const M& m) { A = Eigen::MatrixXd(Mat(m)); return *this; }
    template <class M> Solver& analyzePattern(const M&) { return *this; }
    template <class M> Solver& factorize(const M& m) { return compute(m); }
    template <class V> Eigen::VectorXd solve(const V& b_) const {
        int n = int(A.rows());
        Eigen::VectorXd b = b_, x(n);
        x.setZero();
        std::vector<double> a(size_t(n) * size_t(n));
        for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) a[size_t(i) * n + j] = A(i, j);
        inf = sx_solver_stub(n, a.data(), b.data(), x.data()) ? Eigen::Success : Eigen::NoConvergence;
        return x;
    }
    template <class V, class G> Eigen::VectorXd solveWithGuess(const V& b, const G&) const { return solve(b); }
    Eigen::ComputationInfo info() const { return inf; }
    Solver& setTolerance(double) { return *this; }
    Solver& setMaxIterations(Eigen::Index) { return *this; }
    double tolerance() const { return 2.220446049250313e-16; }
    Eigen::Index maxIterations() const { return 2 * A.cols(); }
    Eigen::Index iterations() const { return 1; }
    double error() const { return inf == Eigen::Success ? 0 : sx_solver_error(); }
    Eigen::Index rows() const { return A.rows(); }
    Eigen::Index cols() const { return A.cols(); }
};
} // namespace sxstub
#define SXM Eigen::SparseMatrix<double, O, I>
#define SXB : public sxstub::Solver<SXM> { using sxstub::Solver<SXM>::Solver; }
namespace Eigen {
template <int O, class I, class P> class BiCGSTAB<SparseMatrix<double, O, I>, P> : public sxstub::Solver<SXM> {
public: using sxstub::Solver<SXM>::Solver; };
template <int O, class I, int U, class P> class ConjugateGradient<SparseMatrix<double, O, I>, U, P> : public sxstub::Solver<SXM> {
public: using sxstub::Solver<SXM>::Solver; };
template <int O, class I, class P> class LeastSquaresConjugateGradient<SparseMatrix<double, O, I>, P> : public sxstub::Solver<SXM> {
public: using sxstub::Solver<SXM>::Solver; };
template <int O, class I, class P> class SparseLU<SparseMatrix<double, O, I>, P> : public sxstub::Solver<SXM> {
public: using sxstub::Solver<SXM>::Solver; };
} // namespace Eigen
