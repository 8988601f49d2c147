#include "lib/Kernel/AbstractValue.h"
#include "lib/Kernel/ArithmeticDag.h"
#include "lib/Kernel/KernelImplementation.h"
#include "lib/Utils/RotationUtils.h"
namespace mlir {
namespace heir {
namespace kernel {
using SNode = std::shared_ptr<ArithmeticDagNode<SymbolicValue>>;
using SV = SymbolicValue;
template SNode implementMatvec<SV>(KernelName, const SV&, const SV&);
template SNode implementRotateAndReduceAccumulation<SV>(SNode, int64_t, int64_t, DagReducer<SV>);
template SNode implementRotateAndReduceAccumulation<SV>(const SV&, int64_t, int64_t, DagReducer<SV>);
template SNode implementRotateAndReduceAccumulationRolled<SV>(SNode, int64_t, int64_t, DagReducer<SV>, const DagType&);
template SNode implementRotateAndReduceAccumulationRolled<SV>(const SV&, int64_t, int64_t, DagReducer<SV>, const DagType&);
template SNode implementBabyStepGiantStep<SV>(const SV&, const SV&, int64_t, int64_t, DagType, DagExtractor<SV>,
                                              const std::map<int, bool>&, const DerivedRotationIndexFn&);
template SNode implementBabyStepGiantStepRolled<SV>(const SV&, const SV&, int64_t, int64_t, DagType, DagExtractorDynamic<SV>,
                                                    const std::map<int, bool>&, const DagDerivedRotationIndexFn<SV>&);
template SNode implementRotateAndReduce<SV>(const SV&, std::optional<SV>, int64_t, int64_t, const DagType&,
                                            const std::map<int, bool>&, const std::string&, bool);
template SNode implementDot<SV>(const SV&, const SV&, int64_t, const DagType&);
template SNode implementBroadcastedReduce<SV>(SNode, std::optional<SNode>, int64_t, int64_t, int64_t, const DagType&,
                                              const std::string&, bool);
template SNode implementCiphertextCiphertextBabyStepGiantStep<SV>(const SV&, const SV&, int64_t, int64_t, const DagType&,
                                                                  DerivedRotationIndexFn);
template SNode implementHaleviShoup<SV>(const SV&, const SV&, std::vector<int64_t>, const DagType&, std::map<int, bool>, bool);
template SNode implementBicyclicMatmul<SV>(const SV&, const SV&, int64_t, int64_t, int64_t, const DagType&);
template SNode implementTricyclicBatchMatmul<SV>(const SV&, const SV&, int64_t, int64_t, int64_t, int64_t, const DagType&);
}  // namespace kernel
}  // namespace heir
}  // namespace mlir
