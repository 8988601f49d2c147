#include "lib/Utils/LogArithmetic.cpp"
#include "lib/Analysis/NoiseAnalysis/Noise.cpp"
#include "lib/Analysis/NoiseAnalysis/BGV/NoiseByBoundCoeffModel.cpp"
#include "lib/Analysis/NoiseAnalysis/BFV/NoiseByBoundCoeffModel.cpp"
