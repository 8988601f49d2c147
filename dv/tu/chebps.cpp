#include "lib/Utils/Polynomial/ChebyshevPatersonStockmeyer.h"
namespace dvinst {
using namespace mlir::heir;
using namespace mlir::heir::polynomial;
}
