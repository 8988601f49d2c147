#include "lib/Transforms/MemrefToArith/Utils.cpp"
