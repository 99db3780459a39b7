#pragma once
// Minimal model of the Ledger SDK's os.h (only what the application uses).
#include <stdint.h>
#include <stddef.h>
#include <stdbool.h>
#include <string.h>
#include <stdio.h>
#include "macros.h"
#include "vmodel.h"
#define PIC(x) (x)
#define PRINTF(...)
#ifndef UNUSED
#define UNUSED(x) (void)(x)
#endif
#ifndef MIN
#define MIN(a, b) ((a) < (b) ? (a) : (b))
#endif
#ifndef MAX
#define MAX(a, b) ((a) > (b) ? (a) : (b))
#endif
void os_sched_exit(int code);
void model_bzero(void *p, size_t n);
