#pragma once
#include "ux.h"
extern uint8_t d_stream[], d_resp[512], d_rng_next[8][32], d_u8s[8];
extern uint32_t d_stream_len, d_resp_len, d_resp_count, d_derives, d_signs, d_path[16], d_path_len, d_exits;
extern uint16_t d_sw;
extern int d_rng_set, d_u8s_set, d_fail_hash, d_fail_mult, d_fail_pair, d_fail_derive, d_fail_addm;
extern int (*d_recv)(void);
void d_mix(const uint8_t *in, size_t n, uint8_t tag, uint8_t out[32]);
void d_key_of(const uint32_t *path, size_t n, uint8_t key[32], uint8_t chain[32]);
const ux_flow_step_t *d_step(void);
void d_settle(void);
struct d_wipe { void *p; size_t n; };
extern struct d_wipe d_wipes[1024];
extern int d_wipe_count, d_fail_keyinit;
extern void *d_raw_key;
int d_wiped(int from, const void *p, size_t n);
