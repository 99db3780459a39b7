#pragma once
#include <stdlib.h>
#define LEDGER_ASSERT(cond, ...) do { if (!(cond)) abort(); } while (0)
