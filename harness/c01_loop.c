#include "proto.h"
void app_main(void);
// The command loop: one frame of any bytes, then a version command, then the transport ends.
static int step;
static uint8_t len;
static bool ok_frame;
static uint16_t first_sw;
static int recv(void) {
    step++;
    if (step == 1) {
        len = in_u8();
        ASSUME(len <= 12);
        in_bytes(G_io_apdu_buffer, 16);
        uint8_t *b = G_io_apdu_buffer;
        ok_frame = (len >= 4) & ((len == 4) | (b[4] == len - 5));
        m_resp.count = 0;
        return len;
    }
    if (step == 2) {
        ASSERT(m_resp.count == 1, "every frame is answered once");
        ASSERT(ok_frame | ((m_resp.sw == 0x6A87) & (m_resp.len == 0)), "a malformed frame is answered with the length error");
        if (!ok_frame) REACH("malformed");
        else REACH("well-formed");
        static const uint8_t v[5] = {0xE0, 1, 0, 0, 0};
        memcpy(G_io_apdu_buffer, v, 5);
        m_resp.count = 0;
        m_resp_watch = in_u8();
        return in_bool() ? 4 : 5;
    }
    ASSERT(step == 3 && m_resp.count == 1 && m_resp.sw == 0x9000 && m_resp.len == 4, "the next command is served");
    REACH("served");
    return -1;
}
void harness(void) {
    m_recv = recv;
    app_main();
    ASSERT(step == 3, "the application serves commands until the transport fails");
    REACH("ended");
}
