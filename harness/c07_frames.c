#include "tx.h"
// Input frames with arbitrary contents: FRAME_LENS lists their lengths.
#ifndef FRAME_LENS
#define FRAME_LENS 63, 59
#endif
static const uint8_t lens[] = {FRAME_LENS};
void harness(void) {
    t_begin(5);
    uint16_t in = in_u16();
    ASSUME(in >= 1);
    if (!t_start(in, in_u16(), 0, 1)) return;
    for (unsigned i = 0; i < sizeof(lens); i++) {
        d_any(lens[i]);
#ifdef FULLK
        // full frames of distinct, fixed token ids
        h_data[42] = 4;
        for (int t = 0; t < 4; t++) memset(h_data + 43 + 40 * t, 4 * (int) i + t, 32);
#endif
        if (!t_frame_data()) {
            REACH("refused");
#ifdef DEAD
            t_dead();
#endif
            return;
        }
        if (S.phase != 2) {
            REACH("inputs complete");
            return;
        }
        if (S.in_stage == 2) {
            REACH("extension awaited");
            return;
        }
        if (S.in_stage == 0) REACH("next input");
        else REACH("next frame");
    }
    REACH("more");
}
