// instantiates the polynomial and quadrature templates for analysis; never executed
#include <functional>
#ifdef MATSLISE_QUADMATH
#include <boost/multiprecision/float128.hpp>
#endif
#include <array>
#include "matslise/util/eigen.h"
#include "matslise/util/legendre.h"
#include "matslise/util/horner.h"

namespace vh {
    using namespace matslise;

    template<typename S, int n>
    std::array<S, n> coefficients(const std::function<S(S)> &f, S a, S b) {
        return legendre::getCoefficients<n, S>(f, a, b);
    }

    template<typename S, int n>
    Polynomial<S, n - 1> polynomial(const std::function<S(S)> &f, S a, S b) {
        return legendre::Legendre<S, n>{f, a, b}.asPolynomial();
    }

    // the same object asked twice, in both orders
    template<typename S, int n>
    std::array<S, n> coefficientsAgain(const std::function<S(S)> &f, S a, S b) {
        legendre::Legendre<S, n> l{f, a, b};
        l.asPolynomial();
        l.getCoefficients();
        return l.getCoefficients();
    }

    template<typename S, int n>
    Polynomial<S, n - 1> polynomialAgain(const std::function<S(S)> &f, S a, S b) {
        legendre::Legendre<S, n> l{f, a, b};
        l.getCoefficients();
        l.asPolynomial();
        return l.asPolynomial();
    }

    template<typename S, int p, int q>
    struct Two {
        using A = Polynomial<S, p>;
        using B = Polynomial<S, q>;
        static A plusAssign(A a, const B &b) { return a += b; }
        static A minusAssign(A a, const B &b) { return a -= b; }
        static A widen(const B &b) { return A(b); }
        static Polynomial<S, p + q> product(const A &a, const B &b) { return a * b; }
    };

    template<typename S, int p>
    struct One {
        using A = Polynomial<S, p>;
        static A addScalar(const A &a, S s) { return a + s; }
        static A scalarAdd(const A &a, S s) { return s + a; }
        static A subScalar(const A &a, S s) { return a - s; }
        static A scalarSub(const A &a, S s) { return s - a; }
        static A mulScalar(const A &a, S s) { return a * s; }
        static A scalarMul(const A &a, S s) { return s * a; }
        static A divScalar(const A &a, S s) { return a / s; }
        static A addAssign(A a, S s) { return a += s; }
        static A subAssign(A a, S s) { return a -= s; }
        static A mulAssign(A a, S s) { return a *= s; }
        static A divAssign(A a, S s) { return a /= s; }
        static A negate(const A &a) { return -a; }
        static A copy(const A &a) { A b(a); return b; }
        static A constant(S s) { return A(s); }
        static A zero() { return A(); }
        static S eval(const A &a, S x) { return a(x); }
        static S derivative0(const A &a, S x) { return a.template derivative<0>(x); }
        static S derivative1(const A &a, S x) { return a.derivative(x); }
        static S derivative2(const A &a, S x) { return a.template derivative<2>(x); }
        static S derivative3(const A &a, S x) { return a.template derivative<3>(x); }
        static Polynomial<S, p> poly0(const A &a) { return a.template derivative<0>(); }
        static Polynomial<S, p - 1> poly1(const A &a) { return a.derivative(); }
        static Polynomial<S, p - 2> poly2(const A &a) { return a.template derivative<2>(); }
        static Polynomial<S, p - 3> poly3(const A &a) { return a.template derivative<3>(); }
        static Polynomial<S, p + 1> integral(const A &a) { return a.integral(); }
        static S integralAt(const A &a, S x) { return a.integral(x); }
        static bool equal(const A &a, const A &b) { return a == b; }
        static bool unequal(const A &a, const A &b) { return a != b; }
        static S hornerScheme(const std::array<S, p + 1> &a, S x) { return horner<S>(a, x, p + 1); }
    };

    template struct One<double, 3>;
    template struct One<double, 7>;
    template struct Two<double, 3, 3>;
    template struct Two<double, 5, 2>;
    template struct Two<double, 6, 0>;

#define TABLES(S) \
    template std::array<S, 2> coefficients<S, 2>(const std::function<S(S)> &, S, S); \
    template std::array<S, 3> coefficients<S, 3>(const std::function<S(S)> &, S, S); \
    template std::array<S, 4> coefficients<S, 4>(const std::function<S(S)> &, S, S); \
    template std::array<S, 6> coefficients<S, 6>(const std::function<S(S)> &, S, S); \
    template std::array<S, 8> coefficients<S, 8>(const std::function<S(S)> &, S, S); \
    template std::array<S, 9> coefficients<S, 9>(const std::function<S(S)> &, S, S); \
    template std::array<S, 10> coefficients<S, 10>(const std::function<S(S)> &, S, S); \
    template std::array<S, 12> coefficients<S, 12>(const std::function<S(S)> &, S, S); \
    template std::array<S, 13> coefficients<S, 13>(const std::function<S(S)> &, S, S); \
    template std::array<S, 14> coefficients<S, 14>(const std::function<S(S)> &, S, S); \
    template std::array<S, 16> coefficients<S, 16>(const std::function<S(S)> &, S, S); \
    template std::array<S, 12> coefficientsAgain<S, 12>(const std::function<S(S)> &, S, S); \
    template Polynomial<S, 3> polynomial<S, 4>(const std::function<S(S)> &, S, S); \
    template Polynomial<S, 9> polynomial<S, 10>(const std::function<S(S)> &, S, S); \
    template Polynomial<S, 12> polynomial<S, 13>(const std::function<S(S)> &, S, S); \
    template Polynomial<S, 15> polynomial<S, 16>(const std::function<S(S)> &, S, S); \
    template Polynomial<S, 11> polynomialAgain<S, 12>(const std::function<S(S)> &, S, S);

    TABLES(double)
#ifdef MATSLISE_LONG_DOUBLE
    TABLES(long double)
#endif
#ifdef MATSLISE_QUADMATH
    TABLES(boost::multiprecision::float128)
#endif
}
