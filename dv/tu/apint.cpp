#include "lib/Utils/APIntUtils.cpp"
