#include "proto.h"
// Prompts of a signing operation, seen forwards, backwards and in any order of the tested length.
static uint32_t n_seen;
static void n_check(uint32_t n, uint32_t pos, void (*check)(uint32_t)) {
    const char *title;
#ifdef FAIL
    if (!h_busy()) {
        ASSERT(h_error() & (m_resp.len == 0) & (app_current_command() == CMD_NONE), "a screen that cannot be made ends the operation with an error");
        ASSERT(!t_at_screen() && m_ui_kind() == 0 && m_ui_find(1) < 0, "a screen that cannot be made ends the operation with an error");
        REACH("failed screen");
        m_fault_fmt = false;
        h_apdu(0xE0, 0x21, 0x20, in_u8(), 0);
        ASSERT(h_error() & !h_busy(), "a screen that cannot be made ends the operation with an error");
        h_end();
    }
#endif
    ASSERT(h_busy() & (m_resp.count == 0), "looking at a prompt answers nothing");
    n_seen++;
    if (pos == 0) {
        ASSERT(!t_at_screen() && G_ux.flow_stack[0].index == 0, "every screen is visited in order");
    } else if (pos <= n) {
        ASSERT(t_at_screen(), "every screen is visited in order");
        check(pos - 1);
        const uint8_t *text = t_text(&title);
        v_check_r(text, 70);
        v_check_r(title, 20);
        uint64_t end = 0, tend = 0;
        for (int i = 0; i < 70; i++) end |= text[i] == 0;
        for (int i = 0; i < 20; i++) tend |= (title[i] == 0);
        ASSERT(end & tend, "titles and texts are terminated");
        ASSERT(m_fmt_printf.need <= m_fmt_printf.size, "titles and texts are not cut");
        ASSERT(m_fmt_u64.need <= m_fmt_u64.size, "titles and texts are not cut");
        ASSERT((m_fmt_fp.calls == 0) | (m_fmt_fp.size >= 24), "titles and texts are not cut");
    } else {
        ASSERT(m_ui_kind() == (int) (pos - n), "approve and reject come last");
    }
}
static void nav(uint32_t n, void (*check)(uint32_t)) {
    uint32_t pos = 0, all = n + 3;
    m_ui_goto(0);
#ifdef MIX
    for (int i = 0; i < MIX; i++) {
        bool right = in_bool();
        if (right) m_ui_right();
        else m_ui_left();
        pos = (pos + (right ? 1 : all - 1)) % all;
        n_check(n, pos, check);
    }
#else
#ifdef FAIL
    m_fault_fmt = true;
    m_fault_budget = 1;
#endif
    for (uint32_t i = 0; i < all; i++) {
        m_ui_right();
        pos = (pos + 1) % all;
        n_check(n, pos, check);
    }
#ifndef FORWARD
    for (uint32_t i = 0; i < all; i++) {
        m_ui_left();
        pos = (pos + all - 1) % all;
        n_check(n, pos, check);
    }
#endif
#ifdef FAIL
    m_fault_fmt = false;
#endif
#endif
    REACH("seen");
}
#define NAV
#ifndef TEXT_LONG
#define TEXT_LONG 1
#endif
#define NAV_SETUP m_text_long = TEXT_LONG == 1, m_text_full = TEXT_LONG == 0
#include "c08_tx.c"
