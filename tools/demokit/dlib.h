#pragma once
// Driver for demonstrations: commands, decisions, screens, and whole operations.
#include "os.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "ux.h"
#include "glyphs.h"
#include "apdu_dispatcher.h"
#include "context.h"
#include "constants.h"
#include "sw.h"
#include "ui/ui_menu.h"
#include "dsdk.h"
#include <stdlib.h>
#define DEMO_CHECK(c, msg) do { if (!(c)) { printf("FAIL: %s (line %d, sw %04x)\n", msg, __LINE__, d_sw); exit(1); } } while (0)
#define H 0x80000000u
static uint8_t D[300];
static int DN;
static void pu8(unsigned v) { D[DN++] = (uint8_t) v; }
static void pu16(unsigned v) { pu8(v >> 8); pu8(v); }
static void pu32(uint32_t v) { pu16(v >> 16); pu16(v & 0xffff); }
static void pu64(uint64_t v) { pu32((uint32_t) (v >> 32)); pu32((uint32_t) v); }
static void pfill(int n, int v) { for (int i = 0; i < n; i++) pu8(v); }
static void pbytes(const void *p, int n) { memcpy(D + DN, p, n); DN += n; }
static void ppath(int n, const uint32_t *p) { pu8(n); for (int i = 0; i < n; i++) pu32(p[i]); }
static void boot(uint32_t app) {
    app_init();
    ui_menu_main();
    d_settle();
    app_set_connected_app_id(app);
}
// sends what was put; returns the status word, 0 if the command waits for the user
static uint16_t cmd_(uint8_t cla, uint8_t ins, uint8_t p1, uint8_t p2) {
    command_t c = {0};
    c.cla = cla; c.ins = ins; c.p1 = p1; c.p2 = p2; c.lc = (uint8_t) DN;
    memset(G_io_apdu_buffer, 0, sizeof G_io_apdu_buffer);
    memcpy(G_io_apdu_buffer + 5, D, DN);
    c.data = DN > 0 ? G_io_apdu_buffer + 5 : NULL;
    DN = 0;
    d_resp_count = 0;
    d_sw = 0;
    apdu_dispatcher(&c);
    d_settle();
    return d_sw;
}
static uint16_t cmd(uint8_t ins, uint8_t p1, uint8_t p2) { return cmd_(0xE0, ins, p1, p2); }
static void right(void) { ux_flow_next(); d_settle(); }
static void left(void) { ux_flow_prev(); d_settle(); }
static void both(void) {
    const ux_flow_step_t *s = d_step();
    if (s->validate_flow) { s->validate_flow[0]->init(0); d_settle(); }
}
static int at_icon(const bagl_icon_details_t *i) {
    const ux_flow_step_t *s = d_step();
    return s->init == ux_layout_pb_init && ((const ux_layout_pb_params_t *) s->params)->icon == i;
}
static uint16_t decide(int yes) {
    d_resp_count = 0;
    d_sw = 0;
    for (int i = 0; i < 80 && !at_icon(yes ? &C_icon_validate_14 : &C_icon_crossmark); i++) right();
    DEMO_CHECK(at_icon(yes ? &C_icon_validate_14 : &C_icon_crossmark), "the prompt offers the decision");
    both();
    return d_sw;
}
static uint16_t approve(void) { return decide(1); }
static uint16_t deny(void) { return decide(0); }
// all texts shown, in order, from the first screen to the approval: "title|text\n"
static char shown[8192];
static char *screens(void) {
    int n = 0;
    shown[0] = 0;
    for (int i = 0; i < 100 && !at_icon(&C_icon_validate_14); i++) {
        const ux_flow_step_t *s = d_step();
        if (s->init == ux_layout_bnnn_paging_init) {
            const ux_layout_bnnn_paging_params_t *p = s->params;
            n += snprintf(shown + n, sizeof shown - n, "%s|%s\n", p->title, p->text);
        }
        right();
    }
    return shown;
}
static const uint32_t PATH5[5] = {H | 44, H | 429, H | 0, 0, 3};
static uint8_t SESS, ASESS;
// ---- signing
static uint16_t sign_init(unsigned net, int n, const uint32_t *path) {
    pu8(net);
    ppath(n, path);
    cmd(0x21, 1, 1);
    if (d_resp_count) return d_sw;
    approve();
    SESS = d_resp[0];
    return d_sw;
}
static uint16_t stx(uint8_t sub) { return cmd(0x21, sub, SESS); }
static uint16_t start_tx(int inputs, int dinputs, int tokens, int outputs) {
    pu16(inputs); pu16(dinputs); pu8(tokens); pu16(outputs);
    return stx(0x10);
}
// a frame as the device itself would attest it
static uint16_t frame(int id, int count, int index, uint64_t value, int tokens, const int *tids, const uint64_t *amts, uint32_t ext) {
    int s = DN;
    uint8_t mac[32];
    pfill(32, id);
    pu8(count); pu8(index); pu64(value); pu8(tokens);
    for (int i = 0; i < tokens; i++) { pfill(32, tids[i]); pu64(amts[i]); }
    cx_hmac_sha256(app_session_key(), 16, D + s, DN - s, mac, 32);
    pbytes(mac, 16);
    if (index == 0) pu32(ext);
    return stx(0x12);
}
static uint16_t input(int id, uint64_t value) { return frame(id, 1, 0, value, 0, NULL, NULL, 0); }
static uint16_t output(uint64_t value, uint32_t tree, uint32_t height, int tokens, uint32_t regs) {
    pu64(value); pu32(tree); pu32(height); pu8(tokens); pu32(regs);
    return stx(0x15);
}
static uint16_t change(int n, const uint32_t *p) { ppath(n, p); return stx(0x18); }
static uint16_t fee(void) { return stx(0x17); }
static uint16_t tree(int n, int v) { pfill(n, v); return stx(0x16); }
// ---- attestation
static uint16_t attest_init(int txid, unsigned index, uint64_t value, uint32_t tree, uint32_t height, int tokens, uint32_t regs) {
    pfill(32, txid); pu16(index); pu64(value); pu32(tree); pu32(height); pu8(tokens); pu32(regs);
    cmd(0x20, 1, 1);
    if (d_resp_count) return d_sw;
    approve();
    ASESS = d_resp[0];
    return d_sw;
}
static uint16_t att(uint8_t sub) { return cmd(0x20, sub, ASESS); }
