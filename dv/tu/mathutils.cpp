#include "lib/Utils/APIntUtils.cpp"
#include "lib/Utils/MathUtils.cpp"
