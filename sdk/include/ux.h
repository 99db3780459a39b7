#pragma once
#include "os.h"
typedef struct {
    int id;
} bagl_icon_details_t;
struct ux_flow_step_s;
typedef void (*ux_flow_init_t)(unsigned int stack_slot);
typedef struct ux_flow_step_s {
    ux_flow_init_t init;
    const void *params;
    const struct ux_flow_step_s *const *validate_flow;
    const struct ux_flow_step_s *const *error_flow;
} ux_flow_step_t;
#define FLOW_END_STEP ((const ux_flow_step_t *) 0xFFFFFFFFUL)
#define FLOW_LOOP     ((const ux_flow_step_t *) 0xFFFFFFFEUL)
typedef struct {
    const ux_flow_step_t *const *steps;
    unsigned short index;
    unsigned short length;
    unsigned short prev_index;
} ux_flow_state_t;
#define UX_STACK_SLOT_COUNT 1
typedef struct {
    unsigned char stack_count;
    ux_flow_state_t flow_stack[UX_STACK_SLOT_COUNT];
} ux_state_t;
extern ux_state_t G_ux;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
void ux_layout_pn_init(unsigned int slot);
void ux_layout_pnn_init(unsigned int slot);
void ux_layout_pb_init(unsigned int slot);
void ux_layout_bn_init(unsigned int slot);
void ux_layout_bnnn_paging_init(unsigned int slot);
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *const start);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_relayout(void);
unsigned int ux_stack_push(void);
#define UX_FLOW_CALL(flow_name, code)                                                     \
    void flow_name##_init(unsigned int stack_slot) { UNUSED(stack_slot); code; }          \
    const ux_flow_step_t flow_name##_step = {flow_name##_init, NULL, NULL, NULL};         \
    const ux_flow_step_t *const flow_name[] = {&flow_name##_step, FLOW_END_STEP}
#define UX_STEP_NOCB(stepname, layoutkind, ...)                                           \
    const ux_layout_##layoutkind##_params_t stepname##_val[1] = {__VA_ARGS__};            \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, stepname##_val, NULL, NULL}
#define UX_STEP_CB(stepname, layoutkind, validate_cb, ...)                                \
    UX_FLOW_CALL(stepname##_validate, validate_cb);                                       \
    const ux_layout_##layoutkind##_params_t stepname##_val[1] = {__VA_ARGS__};            \
    const ux_flow_step_t stepname = {ux_layout_##layoutkind##_init, stepname##_val, stepname##_validate, NULL}
#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...)                            \
    void stepname##_init(unsigned int stack_slot) { UNUSED(stack_slot); __VA_ARGS__; }    \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}
