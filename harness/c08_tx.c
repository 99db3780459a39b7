#include "tx.h"
// A whole transaction of a given shape, every value in it symbolic, to the final decision.
#ifndef NIN
#define NIN 1        // inputs
#endif
#ifndef FRAMES
#define FRAMES 1     // frames of the first input
#endif
#ifndef FTOK
#define FTOK 0       // tokens in each frame
#endif
#ifndef EXT
#define EXT 0        // context extension bytes of the first input
#endif
#ifndef NDIN
#define NDIN 0       // data inputs
#endif
#ifndef NTOK
#define NTOK 0       // distinct token ids
#endif
#ifndef OUTS
#define OUTS 3       // kinds of the outputs: 1 fee, 2 change, 3 p2pk, 4 p2sh, 5 script (a list); 10 a + b: two scripts for one output
#endif
#ifndef OTOK
#define OTOK 0       // tokens of each output
#endif
#ifndef REGS
#define REGS 0       // register bytes of each output
#endif
#ifndef TREE
#define TREE 7       // length of scripts of kind 5
#endif
#ifndef SIGNLEN
#define SIGNLEN 5    // elements of the signing path
#endif
#ifndef REPEAT
#define REPEAT 1     // times the list of outputs
#endif
static const uint8_t outs[] = {OUTS};
#ifdef DEAD
#define STEP(x)             \
    do {                    \
        if (!(x)) {         \
            t_dead();       \
            return;         \
        }                   \
    } while (0)
#else
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
#endif
void harness(void) {
    t_begin(SIGNLEN);
    STEP(t_start(NIN, NDIN, NTOK, REPEAT * sizeof(outs)));
#ifdef SPLIT
    for (int left = NTOK; left > 0;) {
        int n = h_piece(left);
        STEP(t_tokens(32 * n));
        left -= n;
    }
#else
    for (int i = 0; i < NTOK; i += 7) STEP(t_tokens(32 * (NTOK - i < 7 ? NTOK - i : 7)));
#endif
    for (int i = 0; i < NIN; i++) {
        int frames = i == 0 ? FRAMES : 1;
        for (int f = 0; f < frames; f++) STEP(t_frame(FTOK, frames, f, f > 0, f == 0, i == 0 ? EXT : 0));
#ifdef SPLIT
        for (int left = i == 0 ? EXT : 0; left > 0;) {
            int n = h_piece(left);
            STEP(t_extension(n));
            left -= n;
        }
#else
        if (i == 0 && EXT > 0) {
            if (EXT > 2) STEP(t_extension(2));
            for (int sent = EXT > 2 ? 2 : 0; sent < EXT; sent += 255) STEP(t_extension(EXT - sent < 255 ? EXT - sent : 255));
        }
#endif
    }
#ifdef SPLIT
    for (int left = NDIN; left > 0;) {
        int n = h_piece(left);
        STEP(t_data_inputs(32 * n));
        left -= n;
    }
#else
    for (int i = 0; i < NDIN; i += 7) STEP(t_data_inputs(32 * (NDIN - i < 7 ? NDIN - i : 7)));
#endif
    for (unsigned o = 0; o < REPEAT * sizeof(outs); o++) {
        int k = outs[o % sizeof(outs)];
        if (k > 10) {
            // first a script of kind a (5: only its first chunk), then one of kind b, for the same output: to be refused
            int a = k / 10, b = k % 10;
            STEP(t_output(a == 3 ? 36 : a == 5 ? 300 : 5, OTOK, REGS));
            if (b == 2 || a == 2) h_good_path(5);
            if (a == 1) STEP(t_fee(0));
            else if (a == 2) STEP(t_change());
            else STEP(a == 3 ? t_tree(36, 3) : t_tree(255, 0));
            REACH("first script");
            if (b == 1) STEP(t_fee(0));
            else if (b == 2) STEP(t_change());
            else STEP(t_tree(5, 0));
            ASSERT(0, "an output has one script");
            return;
        }
        STEP(t_output(k == 3 ? 36 : k == 4 ? 44 : k == 5 ? TREE : 0, OTOK, REGS));
        if (k == 1) STEP(t_fee(0));
        else if (k == 2) {
            h_good_path(5);
            STEP(t_change());
        } else if (k == 5) {
            for (unsigned sent = 0; sent < TREE; sent += 255) STEP(t_tree(TREE - sent < 255 ? TREE - sent : 255, 0));
        } else STEP(t_tree(k == 3 ? 36 : 44, k));
#ifdef SPLIT
        for (int left = OTOK; left > 0;) {
            int n = h_piece(left < 4 ? left : 4);
            STEP(t_out_tokens(n, 0));
            left -= n;
        }
        for (int left = REGS; left > 0;) {
            int n = h_piece(left);
            STEP(t_registers(n));
            left -= n;
        }
#else
        for (int i = 0; i < OTOK; i += 4) STEP(t_out_tokens(OTOK - i < 4 ? OTOK - i : 4, 0));
        for (int sent = 0; sent < REGS; sent += 255) STEP(t_registers(REGS - sent < 255 ? REGS - sent : 255));
#endif
    }
    REACH("complete");
    t_confirm();
#ifdef DEAD
    t_dead();
#endif
}
