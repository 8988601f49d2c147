#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
template struct mlir::heir::kernel::ArithmeticDagNode<mlir::heir::kernel::SymbolicValue>;
template class mlir::heir::kernel::CachingVisitor<mlir::heir::kernel::SymbolicValue, double>;
