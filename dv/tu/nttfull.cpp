#include "lib/Utils/APIntUtils.cpp"
#include "lib/Utils/Polynomial/NTT.cpp"
