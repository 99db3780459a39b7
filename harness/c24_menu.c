#include "requests.h"
// The menus: any presses, then a request.
#ifndef K
#define K 7
#endif
void harness(void) {
    h_boot();
    uint32_t connected = app_connected_app_id();
    for (int i = 0; i < K; i++) {
        uint8_t what = in_u8();
        ASSUME(what < 3);
        what = (uint8_t) v_concrete(what);
        if (what == 0) m_ui_right();
        else if (what == 1) m_ui_left();
        else m_ui_both();
        ASSERT(m_ui_at_layout() && G_ux.flow_stack[0].length == 3, "a menu is shown");
        ASSERT(!h_busy() & (m_resp.count == 0) & (app_connected_app_id() == connected), "the menus answer nothing and change nothing");
        ASSERT(m_ui_kind() == 0, "the menus approve nothing");
    }
    REACH("moved");
    r_address(true, true);
    ASSERT(!h_busy() && m_ui_at_layout() && m_ui_find(1) < 0, "the menu is shown again");
    REACH("menu again");
}
