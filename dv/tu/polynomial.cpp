#include "lib/Utils/Polynomial/Polynomial.cpp"
namespace mlir::heir::polynomial {
template class MonomialBase<IntMonomial, APInt>;
template class MonomialBase<FloatMonomial, APFloat>;
template class PolynomialBase<IntPolynomial, IntMonomial, APInt>;
template class PolynomialBase<FloatPolynomial, FloatMonomial, APFloat>;
}
