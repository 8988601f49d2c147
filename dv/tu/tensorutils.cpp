#include "lib/Utils/TensorUtils.cpp"
