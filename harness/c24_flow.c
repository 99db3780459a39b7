#include "proto.h"
#include "ui/ui_main.h"
#include "ui/ui_dynamic_flow.h"
#include "ui/ui_approve_reject.h"
// The screens whose content is made on demand: any number of them, any moves, any failure to make one.
#ifndef K
#define K 6      // moves
#endif
static char f_title[20], f_text[70];
static int f_tag;
static uint32_t f_calls, f_last;
static bool f_may_fail, f_failed;
static uint16_t f_code;
static uint16_t f_show(uint8_t screen, char *title, char *text, void *ctx) {
    ASSERT(title == f_title && text == f_text && ctx == &f_tag, "a screen is written to the storage of its prompt");
    f_calls++;
    f_last = screen;
    if (f_may_fail && in_bool()) {
        f_failed = true;
        f_code = in_u16();
        ASSUME(f_code != SW_OK && f_code != 0);
        return f_code;
    }
    return SW_OK;
}
static uint32_t f_n;
static int f_at;          // 0 before, 1 in the dynamic screens, 2 approve, 3 reject
static uint32_t f_index;
static void f_check(void) {
    const char *title;
    if (f_at == 1) {
        ASSERT(t_at_screen() && (char *) t_text(&title) == f_text && title == f_title, "every screen is visited in order");
        ASSERT((f_calls > 0) & (f_last == f_index), "every screen shows its own content");
    } else if (f_at == 0) {
        ASSERT(!t_at_screen() && G_ux.flow_stack[0].index == 0, "every screen is visited in order");
    } else {
        ASSERT(m_ui_kind() == f_at - 1, "approve and reject come last");
    }
    ASSERT(h_busy() & (m_resp.count == 0), "moving answers nothing");
}
// returns false when the operation ended
static bool f_move(bool right) {
    f_calls = 0;
    if (right) m_ui_right();
    else m_ui_left();
    if (f_at == 1) {
        if (right) {
            if (v_concrete(f_index + 1 == f_n)) f_at = 2;
            else f_index++;
        } else {
            if (v_concrete(f_index == 0)) f_at = 0;
            else f_index--;
        }
    } else {
        f_at = (f_at + (right ? 1 : 3)) % 4;
        if (f_at == 1) f_index = right ? 0 : f_n - 1;
    }
    if (f_failed) {
        ASSERT(h_error() & (m_resp.sw == f_code) & (m_resp.len == 0) & !h_busy(), "a screen that cannot be made ends the operation with its error");
        ASSERT(app_current_command() == CMD_NONE && !t_at_screen() && m_ui_kind() == 0, "a screen that cannot be made ends the operation with its error");
        REACH("failed screen");
        return false;
    }
    f_check();
    return true;
}
static void act(bool approve, void *ctx) {}
#ifndef HEADING
#define HEADING 1
#endif
static bool f_setup(void) {
    static const ux_layout_bn_params_t bn = {"a", "b"};
    static const ux_flow_step_t head = {ux_layout_bn_init, &bn, NULL, NULL};
    uint8_t screen = 0;
    ASSERT(ui_add_screen(&head, &screen), "there is room for the heading");
    bool ok = ui_add_dynamic_flow_screens(&screen, (uint8_t) f_n, f_title, f_text, f_show, &f_tag);
    ASSERT(ok == (f_n >= 1 && f_n <= 254), "numbers of screens that cannot be shown are refused");
    if (!ok) {
        REACH("refused");
        return false;
    }
    ui_approve_reject_screens(act, NULL, ui_next_sreen_ptr(&screen), ui_next_sreen_ptr(&screen));
    ASSERT(ui_display_screens(&screen), "there is room for the prompt");
    m_ui_settle();
    return true;
}
void harness(void) {
    h_boot();
#ifdef LIMITS
    // the list of screens
    uint8_t p = in_u8(), q = p;
    ux_flow_step_t s = {0};
    bool ok = ui_add_screen(&s, &q);
    ASSERT(ok == (p < 8) && q == p + ok && (!ok || G_ux_flow_steps[p] == &s), "a screen is added if there is room");
    q = p;
    const ux_flow_step_t **slot = ui_next_sreen_ptr(&q);
    ASSERT((slot != NULL) == (p < 8) && q == p + ok && (slot == NULL || slot == &G_ux_flow_steps[p]), "a screen is added if there is room");
    uint8_t n = in_u8();
    q = p;
    ok = ui_add_dynamic_flow_screens(&q, n, f_title, f_text, f_show, &f_tag);
    if (p <= 5) ASSERT(ok == (n >= 1 && n <= 254) && q == p + 3 * ok, "screens are added if there is room");
    else if (p <= 8) ASSERT(!ok && q == p, "screens are added if there is room");
    if (p < 1 || p > 8) return;
    uint32_t shown = m_ui_flow_inits;
    static const ux_layout_bn_params_t bn = {"a", "b"};
    static const ux_flow_step_t head = {ux_layout_bn_init, &bn, NULL, NULL};
    for (int i = 0; i < 9; i++) {
        if (i < p) G_ux_flow_steps[i] = &head;
    }
    q = p;
    ok = ui_display_screens(&q);
    ASSERT(p == 7 || ok == (p <= 6), "a prompt that fits is shown");
    ASSERT((m_ui_flow_inits == shown + 1) == ok && h_busy() == ok, "a prompt that does not fit is not shown");
    REACH("limits");
#elif defined(LONG)
    // from end to end and back
    f_n = LONG;
    if (!f_setup()) return;
    for (int i = 0; i < LONG + 3; i++) {
        if (!f_move(true)) return;
    }
    ASSERT(f_at == 0, "harness");
    for (int i = 0; i < LONG + 3; i++) {
        if (!f_move(false)) return;
    }
    ASSERT(f_at == 0, "harness");
    REACH("moved");
#else
    f_n = in_u8();
    f_may_fail = true;
    if (!f_setup()) return;
    for (int i = 0; i < K; i++) {
        if (!f_move(in_bool())) return;
    }
    REACH("moved");
#endif
}
