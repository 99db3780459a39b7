#include "attest.h"
// One box of a given shape, sent in the given pieces; then the frames.
#ifndef TREE
#define TREE 7
#endif
#ifndef TOKS
#define TOKS        // tokens per command (a list)
#endif
#ifndef REGS
#define REGS        // register bytes per command (a list)
#endif
#ifndef FRAMES
#define FRAMES 1    // frames fetched
#endif
static const uint8_t toks[] = {0, TOKS};
static const uint32_t regs[] = {0, REGS};
#define STEP(x)           \
    do {                  \
        if (!(x)) return; \
    } while (0)
void harness(void) {
    h_boot();
    m_watch = in_u32();
    ASSUME(m_watch != 0xFFFFFFFFu);
#ifdef NOWATCH
    m_watch = 0xFFFFFFFFu;
#endif
    uint8_t tn = 0;
    uint32_t rn = 0;
    for (unsigned i = 0; i < sizeof(toks); i++) tn += toks[i];
    for (unsigned i = 0; i < sizeof(regs) / sizeof(regs[0]); i++) rn += regs[i];
    STEP(a_init(TREE, tn, rn,
#ifdef SIMPLE
                false
#else
                in_bool()
#endif
                ));
    for (unsigned sent = 0; sent <= TREE && A.phase == 1; sent += 255) STEP(a_tree(TREE - sent < 255 ? TREE - sent : 255));
#ifdef SPLIT
    while (tn > 0) {
        int n = h_piece(tn < 5 ? tn : 5);
        STEP(a_tokens(n, 0));
        tn -= n;
    }
    while (rn > 0) {
        int n = h_piece(rn < 255 ? rn : 255);
        STEP(a_registers(n));
        rn -= n;
    }
#else
    for (unsigned i = 1; i < sizeof(toks); i++) STEP(a_tokens(toks[i], 0));
    for (unsigned i = 1; i < sizeof(regs) / sizeof(regs[0]); i++)
        for (unsigned sent = 0; sent < regs[i]; sent += 255) STEP(a_registers(regs[i] - sent < 255 ? regs[i] - sent : 255));
#endif
    ASSERT(A.phase == 4, "the box is complete");
    for (int i = 0; i < FRAMES; i++) STEP(a_frame(0));
    REACH("frames fetched");
}
