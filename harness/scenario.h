#pragma once
// Operations of every kind, in lock step; SC selects one.
#include "tx.h"
#include "attest.h"
#include "requests.h"
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
#ifndef SC
#define SC 0
#endif
static void scenario(void) {
#if SC == 5
    t_begin(5);
    STEP(t_start(1, 1, 1, 3));
    STEP(t_tokens(32));
    STEP(t_frame(1, 1, 0, false, true, 2));
    STEP(t_extension(2));
    STEP(t_data_inputs(32));
    STEP(t_output(36, 1, 2));
    STEP(t_tree(36, 3));
    STEP(t_out_tokens(1, 0));
    STEP(t_registers(2));
    STEP(t_output(0, 0, 0));
    STEP(t_fee(0));
    STEP(t_output(0, 0, 0));
    h_good_path(5);
    STEP(t_change());
    t_confirm();
#elif SC == 6
    // every part in pieces
    t_begin(5);
    STEP(t_start(1, 2, 2, 1));
    STEP(t_tokens(32));
    STEP(t_tokens(32));
    STEP(t_frame(2, 1, 0, false, true, 3));
    STEP(t_extension(2));
    STEP(t_extension(1));
    STEP(t_data_inputs(32));
    STEP(t_data_inputs(32));
    STEP(t_output(257, 2, 3));
    STEP(t_tree(255, 5));
    STEP(t_tree(2, 5));
    STEP(t_out_tokens(1, 0));
    STEP(t_out_tokens(1, 0));
    STEP(t_registers(2));
    STEP(t_registers(1));
    t_confirm();
#else
    h_boot();
#if SC == 7
    m_watch = in_u32();
    STEP(a_init(257, 2, 3, false));
    STEP(a_tree(255));
    STEP(a_tree(2));
    STEP(a_tokens(1, 0));
    STEP(a_tokens(1, 0));
    STEP(a_registers(2));
    STEP(a_registers(1));
    STEP(a_frame(0));
#elif SC == 0
    h_point(false);
    r_epk(false);
#elif SC == 1
    r_epk(true);
#elif SC == 2
    r_address(true, true);
#elif SC == 3
    r_address(false, true);
#elif SC == 4
    m_watch = in_u32();
    STEP(a_init(3, 1, 2, true));
    STEP(a_tree(3));
    STEP(a_tokens(1, 0));
    STEP(a_registers(2));
    STEP(a_frame(0));
    STEP(a_frame(0));
#endif
#endif
    h_point(false);
    REACH("scenario done");
}
