#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Utils/Polynomial/ChebyshevDecomposition.cpp"
#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
#include "lib/Utils/Polynomial/Horner.h"
#include "lib/Utils/Polynomial/PatersonStockmeyer.h"
namespace mlir {
namespace heir {
namespace polynomial {
using kernel::LiteralDouble;
using LNode = std::shared_ptr<kernel::ArithmeticDagNode<LiteralDouble>>;
template LNode hornerMonomialPolynomialEvaluation<LiteralDouble>(
    LNode, const std::map<int64_t, double>&, kernel::DagType);
template LNode patersonStockmeyerMonomialPolynomialEvaluation<LiteralDouble>(
    LNode, const std::map<int64_t, double>&, kernel::DagType);
template std::vector<LNode> computePowers<LiteralDouble>(LNode, int64_t, kernel::DagType);
template LNode genChebyshevPowerRecursive<LiteralDouble>(
    LNode, int64_t, std::map<int64_t, LNode>&, kernel::DagType);
template std::map<int64_t, LNode> genChebyshevPowersRecursive<LiteralDouble>(
    LNode, int64_t, kernel::DagType);
template std::vector<LNode> computeChebyshevPolynomialValues<LiteralDouble>(
    const LiteralDouble&, int64_t, kernel::DagType);
template LNode patersonStockmeyerChebyshevPolynomialEvaluation<LiteralDouble>(
    const LiteralDouble&, llvm::ArrayRef<double>, double, kernel::DagType);
}  // namespace polynomial
}  // namespace heir
}  // namespace mlir
namespace dvinst {
using namespace mlir::heir;
using namespace mlir::heir::polynomial;
using namespace mlir::heir::kernel;
}
