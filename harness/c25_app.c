#include "scenario.h"
// Two requests of any kinds with any tokens, with any command with arbitrary data in between.
static bool request(void) {
    uint8_t k = in_u8();
    ASSUME(k < 10);
    switch ((uint8_t) v_concrete(k)) {
        case 0: return r_epk(false);
        case 1: return r_epk(true);
        case 2: return r_address(true, false);
        case 3: return r_address(true, true);
        case 4: return r_address(false, false);
        case 5: return r_address(false, true);
        case 6: return a_init(0, 0, 0, false);
        case 7: return a_init(0, 0, 0, true);
        case 8: return r_sign(false);
        default: return r_sign(true);
    }
}
#ifdef RAW
// any command with any data of up to RAW bytes; a prompt is then rejected
static void raw(void) {
    uint8_t ins = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= RAW);
    in_bytes(h_data, RAW);
    uint32_t connected = app_connected_app_id();
    h_apdu(0xE0, ins, p1, p2, lc);
    ASSERT(app_connected_app_id() == connected, "a command does not change the connected application by itself");
    if (h_busy()) {
        REACH("prompt");
        h_decide(false);
        ASSERT(app_connected_app_id() == connected, "a rejected request does not change the connected application");
    }
}
#endif
void harness(void) {
    h_boot();
    m_watch = 0xFFFFFFFFu;
#ifdef RAW
    raw();
#else
    request();
    request();
#endif
    REACH("done");
}
