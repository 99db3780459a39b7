#include "scenario.h"
// A command with any header and data, at any point of any operation, that is not a data command with valid parameters.
static void inject(bool prompt) {
    uint8_t cla = in_u8(), ins = in_u8(), p1 = in_u8(), p2 = in_u8(), lc = in_u8();
    ASSUME(lc <= 60);
    in_bytes(h_data, 60);
    uint32_t connected = app_connected_app_id();
    bool busy = h_busy();
    ux_state_t ux = G_ux;
    m_resp_watch = in_u8();
    // specification
    uint64_t known = (ins == 0x01) | (ins == 0x02) | (ins == 0x10) | (ins == 0x11) | (ins == 0x20) | (ins == 0x21);
    uint64_t good = v_select(ins < 0x10, (p1 == 0) & (p2 == 0),
                    v_select(ins == 0x10, (p1 >= 1) & (p1 <= 2) & (p2 == 0),
                    v_select(ins == 0x11, (p1 >= 1) & (p1 <= 2) & (p2 >= 1) & (p2 <= 2), (p1 != 0) & (p2 != 0))));
    ASSUME(!((cla == 0xE0) & known & good & (ins >= 0x10)));
    h_apdu(cla, ins, p1, p2, lc);
    uint16_t want = (uint16_t) v_select(cla != 0xE0, 0x6E00, v_select(!known, 0x6D00, v_select(!good, 0x6A86, 0x9000)));
    ASSERT((m_resp.count == 1) & (m_resp.sw == want), "the answer is the status word of the header's error");
    if (want != 0x9000) {
        ASSERT(m_resp.len == 0, "an error carries no data");
        REACH("refused header");
    } else {
        const uint8_t version[4] = {MAJOR_VERSION, MINOR_VERSION, PATCH_VERSION, 0};
        uint8_t w = m_resp_watch;
        if (ins == 1) ASSERT((m_resp.len == 4) & ((w >= 4) | (m_resp.watched == v_pick(version, 4, w, 0))), "the version is answered");
        else ASSERT((m_resp.len == sizeof(APPNAME) - 1) & ((w >= sizeof(APPNAME) - 1) | (m_resp.watched == v_pick(APPNAME, sizeof(APPNAME), w, 0))), "the name is answered");
        REACH("version or name");
    }
    ASSERT((app_connected_app_id() == connected) & (h_busy() == busy), "the application's state does not change");
    ASSERT(memcmp(&ux, &G_ux, sizeof(ux)) == 0, "the screen does not change");
}
void harness(void) { scenario(); }
