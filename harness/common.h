#pragma once
// Shared by all harnesses.
#include "os.h"
#include "cx.h"
#include "io.h"
#include "parser.h"
#include "ux.h"
#include "glyphs.h"
#include "bip32.h"
#include "apdu_dispatcher.h"
#include "context.h"
#include "constants.h"
#include "sw.h"
#include "ui/ui_menu.h"

#define APDU_MAX 255
static uint8_t *const h_data = G_io_apdu_buffer + 5;

// Boot the application the way app_main does (random session key), with any connected application id.
static inline void h_boot(void) {
    app_init();
    ui_menu_main();
    m_ui_settle();
    app_set_connected_app_id(in_u32());
    m_resp.count = 0;
}
// Deliver one APDU whose data is already in h_data.
static inline void h_apdu(uint8_t cla, uint8_t ins, uint8_t p1, uint8_t p2, uint8_t lc) {
    command_t cmd;
    cmd.cla = cla;
    cmd.ins = ins;
    cmd.p1 = p1;
    cmd.p2 = p2;
    cmd.lc = lc;
    cmd.data = lc > 0 ? h_data : NULL;
    m_resp.count = 0;
    apdu_dispatcher(&cmd);
    m_ui_settle();
}
static inline bool h_busy(void) { return app_is_ui_busy(); }
static inline uint32_t h_be32(const uint8_t *p) {
    return ((uint32_t) p[0] << 24) | ((uint32_t) p[1] << 16) | ((uint32_t) p[2] << 8) | p[3];
}
static inline uint64_t h_be64(const uint8_t *p) { return ((uint64_t) h_be32(p) << 32) | h_be32(p + 4); }
static inline void h_put32(uint8_t *p, uint32_t v) {
    p[0] = (uint8_t) (v >> 24);
    p[1] = (uint8_t) (v >> 16);
    p[2] = (uint8_t) (v >> 8);
    p[3] = (uint8_t) v;
}
static inline void h_put64(uint8_t *p, uint64_t v) {
    h_put32(p, (uint32_t) (v >> 32));
    h_put32(p + 4, (uint32_t) v);
}
