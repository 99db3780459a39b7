#define VMODEL_RAW
#include "vmodel.h"
int tape_mode;
#define TAPE 6000
static uint64_t tape[TAPE];
static uint32_t tape_n, tape_pos;
void tape_begin(int mode) {
    tape_mode = mode;
    tape_pos = 0;
    if (mode == 1) tape_n = 0;
}
bool tape_used_up(void) { return tape_pos == tape_n; }
static uint64_t tape_play(void) {
    ASSERT(tape_pos < tape_n, "the application asks for the same inputs whatever the secrets are");
    return tape[tape_pos++];
}
static uint64_t tape_record(uint64_t v) {
    if (tape_mode == 1) {
        ASSERT(tape_n < TAPE, "model capacity: inputs of one run");
        tape[tape_n++] = v;
    }
    return v;
}
uint8_t tape_u8(void) { return tape_mode == 2 ? (uint8_t) tape_play() : (uint8_t) tape_record(in_u8()); }
uint16_t tape_u16(void) { return tape_mode == 2 ? (uint16_t) tape_play() : (uint16_t) tape_record(in_u16()); }
uint32_t tape_u32(void) { return tape_mode == 2 ? (uint32_t) tape_play() : (uint32_t) tape_record(in_u32()); }
uint64_t tape_u64(void) { return tape_mode == 2 ? tape_play() : tape_record(in_u64()); }
bool tape_bool(void) { return tape_mode == 2 ? tape_play() != 0 : tape_record(in_bool()) != 0; }
void tape_bytes(void *p, size_t n) {
    uint8_t *b = p;
    if (tape_mode == 2) {
        for (size_t i = 0; i < n; i++) b[i] = (uint8_t) tape_play();
        return;
    }
    in_bytes(p, n);
    if (tape_mode == 1) {
        for (size_t i = 0; i < n; i++) tape_record(b[i]);
    }
}
void secret_bytes(void *p, size_t n) { in_bytes(p, n); }
