#include "lib/Utils/AffineMapUtils.cpp"
