#include "lib/Dialect/TensorExt/Transforms/ShiftScheme.cpp"
