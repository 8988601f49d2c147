#include "lib/Utils/Polynomial/NTT.cpp"
