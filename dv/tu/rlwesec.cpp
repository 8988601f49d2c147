#include "lib/Parameters/RLWESecurityParams.cpp"
