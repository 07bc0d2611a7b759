#pragma once
#include <os.h>
#include <glyphs.h>
// Button-driven (BAGL) flow engine stand-in.
typedef struct ux_flow_step_s ux_flow_step_t;
typedef void (*ux_flow_step_init_t)(unsigned int stack_slot);
struct ux_flow_step_s {
    ux_flow_step_init_t init;
    const void *params;
    const ux_flow_step_t *const *validate_flow;
    const ux_flow_step_t *const *error_flow;
};
#define FLOW_END_STEP ((const ux_flow_step_t *) 0xFFFFFFFFUL)
#define FLOW_BARRIER  ((const ux_flow_step_t *) 0xFFFFFFFEUL)
#define FLOW_START    ((const ux_flow_step_t *) 0xFFFFFFFDUL)
#define FLOW_LOOP     ((const ux_flow_step_t *) 0xFFFFFFFCUL)

typedef struct {
    const ux_flow_step_t *const *steps;
    unsigned short index;
    unsigned short prev_index;
    unsigned short length;
} ux_flow_state_t;
typedef struct {
    unsigned char stack_count;
    ux_flow_state_t flow_stack[2];
} ux_state_t;
extern ux_state_t G_ux;

typedef struct { const char *line1; } ux_layout_n_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_bn_params_t;
typedef struct { const char *line1; const char *line2; } ux_layout_nn_params_t;
typedef struct { const char *line1; const char *line2; const char *line3; } ux_layout_bnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; } ux_layout_pb_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pnn_params_t;
typedef struct { const bagl_icon_details_t *icon; const char *line1; const char *line2; } ux_layout_pbb_params_t;
typedef struct { const char *title; const char *text; } ux_layout_bnnn_paging_params_t;
void ux_layout_bn_init(unsigned int slot);
void ux_layout_nn_init(unsigned int slot);
void ux_layout_pn_init(unsigned int slot);
void ux_layout_pb_init(unsigned int slot);
void ux_layout_pnn_init(unsigned int slot);
void ux_layout_pbb_init(unsigned int slot);
void ux_layout_bnnn_paging_init(unsigned int slot);

unsigned int ux_stack_push(void);
void ux_flow_init(unsigned int slot, const ux_flow_step_t *const *steps, const ux_flow_step_t *start);
void ux_flow_next(void);
void ux_flow_prev(void);
void ux_flow_relayout(void);
void ux_flow_validate(void);

#define UX_STEP_NOCB(stepname, kind, ...)                               \
    const ux_layout_##kind##_params_t stepname##_val = __VA_ARGS__;     \
    const ux_flow_step_t stepname = {ux_layout_##kind##_init, &stepname##_val, NULL, NULL}
#define UX_STEP_CB(stepname, kind, validate_cb, ...)                                              \
    void stepname##_validateinit(unsigned int stack_slot) {                                       \
        (void) stack_slot;                                                                        \
        validate_cb;                                                                              \
    }                                                                                             \
    const ux_flow_step_t stepname##_validate_step = {stepname##_validateinit, NULL, NULL, NULL};  \
    const ux_flow_step_t *const stepname##_validate[] = {&stepname##_validate_step, FLOW_END_STEP}; \
    const ux_layout_##kind##_params_t stepname##_val = __VA_ARGS__;                               \
    const ux_flow_step_t stepname = {ux_layout_##kind##_init, &stepname##_val, stepname##_validate, NULL}
#define UX_STEP_INIT(stepname, validate_flow, error_flow, ...)      \
    void stepname##_init(unsigned int stack_slot) {                 \
        (void) stack_slot;                                          \
        __VA_ARGS__;                                                \
    }                                                               \
    const ux_flow_step_t stepname = {stepname##_init, NULL, validate_flow, error_flow}
