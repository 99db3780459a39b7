#pragma once
#include "os.h"
int base58_encode(const uint8_t *in, size_t in_len, char *out, size_t out_len);
