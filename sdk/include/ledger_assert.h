#pragma once
#include "os.h"
void model_ledger_assert_failed(void);
#define LEDGER_ASSERT(cond, ...)                     \
    do {                                             \
        if (!(cond)) model_ledger_assert_failed();   \
    } while (0)
