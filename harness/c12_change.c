#include "tx.h"
// Change outputs to arbitrary paths of LEN1 (and LEN2) elements, signing path of SIGNLEN elements.
#ifndef SIGNLEN
#define SIGNLEN 5
#endif
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
void harness(void) {
    t_begin(SIGNLEN);
    STEP(t_start(1, 0, 0, 3));
    STEP(t_frame(0, 1, 0, false, true, 0));
    STEP(t_output(0, 0, 0));
    h_any_path(LEN1);
    if (!t_change()) {
        REACH("first ended");
        return;
    }
    REACH("first accepted");
#ifdef BETWEEN
    // another kind of output in between
    STEP(t_output(BETWEEN == 3 ? 36 : 0, 0, 0));
    if (BETWEEN == 1) STEP(t_fee(0));
    else STEP(t_tree(36, 3));
#endif
#ifdef LEN2
    STEP(t_output(0, 0, 0));
    h_any_path(LEN2);
    if (!t_change()) {
        REACH("second ended");
        return;
    }
    REACH("second accepted");
#endif
}
