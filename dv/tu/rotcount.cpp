#include "lib/Kernel/RotationCountVisitor.cpp"
