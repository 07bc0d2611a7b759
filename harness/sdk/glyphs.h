#pragma once
typedef struct { int id; } bagl_icon_details_t;
extern const bagl_icon_details_t C_icon_eye, C_icon_processing, C_icon_warning, C_icon_validate_14,
    C_icon_crossmark, C_icon_certificate, C_icon_dashboard_x, C_icon_back, C_app_logo,
    C_icon_back_x, C_icon_left, C_icon_right, C_icon_up, C_icon_down, C_icon_validate, C_icon_hourglass, C_icon_info, C_icon_coggle, C_icon_dashboard;
