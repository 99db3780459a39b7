#pragma once
#include "os.h"
bool format_u64(char *out, size_t outLen, uint64_t in);
bool format_fpu64(char *dst, size_t dst_len, const uint64_t value, uint8_t decimals);
int format_hex(const uint8_t *in, size_t in_len, char *out, size_t out_len);
