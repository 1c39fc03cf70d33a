// Checks of the bases of matrices against values of their entries.
#pragma once
#include "matrix_check.h"
#include "matrix/matrix_basis.h"
#include <Eigen/Dense>
#include <Eigen/SparseCore>

namespace model {
    using Grid = std::vector<cd>;   // row * dim + col
    template<class B> inline void cellular(const pbt::Case& c, const B& basis, const BasisValues& b, const Grid& want, size_t dim, const std::string& what, bool all) {
        auto [re, im] = basis();
        c.check((all ? re.size() == b.re.size() && im.size() == b.im.size() : re.size() <= b.re.size() && im.size() <= b.im.size()), what + ": number of matrices");
        Grid got(dim * dim, 0.0);
        auto add = [&](auto& list, const std::vector<double>& x) {
            for (size_t k = 0; k < list.size(); ++k) {
                c.check(static_cast<size_t>(list[k].rows()) == dim && static_cast<size_t>(list[k].cols()) == dim, what + ": size of matrix");
                for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j)
                    got[i * dim + j] += x[k] * cd{Eigen::MatrixXcd(list[k].template cast<cd>())(static_cast<Eigen::Index>(i), static_cast<Eigen::Index>(j))};
            }
        };
        add(re, b.re);
        add(im, b.im);
        for (size_t i = 0; i < dim * dim; ++i) c.checkf(pbt::close(got[i], want[i]), [&] { return what + pbt::str(": element (", i / dim, ",", i % dim, ") is ", got[i], ", expected ", want[i]); });
    }
    template<class B> inline void monolithic(const pbt::Case& c, const B& basis, const BasisValues& b, const Grid& want, size_t dim, const std::string& what, bool all) {
        auto [re, im] = basis();
        auto d2 = static_cast<Eigen::Index>(dim * dim);
        auto nr = static_cast<size_t>(re.rows()), ni = static_cast<size_t>(im.rows());
        c.check((all ? nr == b.re.size() && ni == b.im.size() : nr <= b.re.size() && ni <= b.im.size()) && re.cols() == d2 && im.cols() == d2, what + ": size");
        Eigen::MatrixXcd r = Eigen::MatrixXcd(re.template cast<cd>()), m = Eigen::MatrixXcd(im.template cast<cd>());
        for (size_t i = 0; i < dim; ++i) for (size_t j = 0; j < dim; ++j) {
            cd got = 0;
            auto col = static_cast<Eigen::Index>(j * dim + i);
            for (size_t k = 0; k < nr; ++k) got += b.re[k] * r(static_cast<Eigen::Index>(k), col);
            for (size_t k = 0; k < ni; ++k) got += b.im[k] * m(static_cast<Eigen::Index>(k), col);
            c.checkf(pbt::close(got, want[i * dim + j]), [&] { return what + pbt::str(": element (", i, ",", j, ") is ", got, ", expected ", want[i * dim + j]); });
        }
    }
    /** Every basis of a matrix against the values of its elements. If not all, the bases may omit the latest symbols. */
    inline void all_bases(pbt::Case& c, const Moment::SymbolicMatrix& m, const BasisValues& b, const Grid& want, bool complex_coefs, bool all = true) {
        auto dim = m.Dimension();
        std::vector<int> order{0, 1, 2, 3, 4, 5, 6, 7, 0, 5};
        c.shuffle(order);
        c.check(m.HasComplexCoefficients() == complex_coefs, "HasComplexCoefficients");
        for (int k : order) {
            bool real_kind = k < 4, thrown = false;
            try {
                switch (k) {
                    case 0: cellular(c, m.Basis.Dense, b, want, dim, "dense", all); break;
                    case 1: cellular(c, m.Basis.Sparse, b, want, dim, "sparse", all); break;
                    case 2: monolithic(c, m.Basis.DenseMonolithic, b, want, dim, "dense monolithic", all); break;
                    case 3: monolithic(c, m.Basis.SparseMonolithic, b, want, dim, "sparse monolithic", all); break;
                    case 4: cellular(c, m.Basis.DenseComplex, b, want, dim, "dense complex", all); break;
                    case 5: cellular(c, m.Basis.SparseComplex, b, want, dim, "sparse complex", all); break;
                    case 6: monolithic(c, m.Basis.DenseMonolithicComplex, b, want, dim, "dense monolithic complex", all); break;
                    default: monolithic(c, m.Basis.SparseMonolithicComplex, b, want, dim, "sparse monolithic complex", all); break;
                }
            } catch (const Moment::errors::bad_basis_error&) { thrown = true; }
            c.check(thrown == (real_kind && complex_coefs), thrown ? "basis is refused" : "real basis for a matrix with complex coefficients");
        }
    }
}
