#ifndef DV_STUB_DEBUGLOG_H
#define DV_STUB_DEBUGLOG_H
#include "llvm/include/llvm/Support/raw_ostream.h"
#define LDBG(...) for (bool dv_off = false; dv_off; dv_off = false) ::llvm::nulls()
#endif
