/* generated by tools/mkmatshim.py */
    case 0: { /* cp_vec2_rev */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_VEC2_REV
        cp_vec2_t w = CP_VEC2_REV(a1);
#endif
        cp_vec2_rev(a0, a1);
#ifdef CP_VEC2_REV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 1: { /* cp_vec3_rev */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_VEC3_REV
        cp_vec3_t w = CP_VEC3_REV(a1);
#endif
        cp_vec3_rev(a0, a1);
#ifdef CP_VEC3_REV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 2: { /* cp_vec4_rev */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1);
#ifdef CP_VEC4_REV
        cp_vec4_t w = CP_VEC4_REV(a1);
#endif
        cp_vec4_rev(a0, a1);
#ifdef CP_VEC4_REV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 3: { /* cp_vec2_divc */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_DIVC
        cp_vec2_t w = CP_VEC2_DIVC(a1, a2);
#endif
        cp_vec2_divc(a0, a1, a2);
#ifdef CP_VEC2_DIVC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 4: { /* cp_vec3_divc */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_DIVC
        cp_vec3_t w = CP_VEC3_DIVC(a1, a2);
#endif
        cp_vec3_divc(a0, a1, a2);
#ifdef CP_VEC3_DIVC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 5: { /* cp_vec4_divc */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_DIVC
        cp_vec4_t w = CP_VEC4_DIVC(a1, a2);
#endif
        cp_vec4_divc(a0, a1, a2);
#ifdef CP_VEC4_DIVC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 6: { /* cp_vec2_div */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double a2 = rd();
#ifdef CP_VEC2_DIV
        cp_vec2_t w = CP_VEC2_DIV(a1, a2);
#endif
        cp_vec2_div(a0, a1, a2);
#ifdef CP_VEC2_DIV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 7: { /* cp_vec3_div */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double a2 = rd();
#ifdef CP_VEC3_DIV
        cp_vec3_t w = CP_VEC3_DIV(a1, a2);
#endif
        cp_vec3_div(a0, a1, a2);
#ifdef CP_VEC3_DIV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 8: { /* cp_vec4_div */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); double a2 = rd();
#ifdef CP_VEC4_DIV
        cp_vec4_t w = CP_VEC4_DIV(a1, a2);
#endif
        cp_vec4_div(a0, a1, a2);
#ifdef CP_VEC4_DIV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 9: { /* cp_vec2_min */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_MIN
        cp_vec2_t w = CP_VEC2_MIN(a1, a2);
#endif
        cp_vec2_min(a0, a1, a2);
#ifdef CP_VEC2_MIN
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 10: { /* cp_vec3_min */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_MIN
        cp_vec3_t w = CP_VEC3_MIN(a1, a2);
#endif
        cp_vec3_min(a0, a1, a2);
#ifdef CP_VEC3_MIN
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 11: { /* cp_vec4_min */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_MIN
        cp_vec4_t w = CP_VEC4_MIN(a1, a2);
#endif
        cp_vec4_min(a0, a1, a2);
#ifdef CP_VEC4_MIN
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 12: { /* cp_vec2_max */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_MAX
        cp_vec2_t w = CP_VEC2_MAX(a1, a2);
#endif
        cp_vec2_max(a0, a1, a2);
#ifdef CP_VEC2_MAX
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 13: { /* cp_vec3_max */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_MAX
        cp_vec3_t w = CP_VEC3_MAX(a1, a2);
#endif
        cp_vec3_max(a0, a1, a2);
#ifdef CP_VEC3_MAX
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 14: { /* cp_vec4_max */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_MAX
        cp_vec4_t w = CP_VEC4_MAX(a1, a2);
#endif
        cp_vec4_max(a0, a1, a2);
#ifdef CP_VEC4_MAX
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 15: { /* cp_vec2_minmax */ cp_vec2_minmax_t *a0 = in(sizeof(cp_vec2_minmax_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_minmax(a0, a1); outd(a0, sizeof *a0); break; }
    case 16: { /* cp_vec3_minmax */ cp_vec3_minmax_t *a0 = in(sizeof(cp_vec3_minmax_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_minmax(a0, a1); outd(a0, sizeof *a0); break; }
    case 17: { /* cp_vec4_minmax */ cp_vec4_minmax_t *a0 = in(sizeof(cp_vec4_minmax_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_minmax(a0, a1); outd(a0, sizeof *a0); break; }
    case 18: { /* cp_vec2_minmax_or */ cp_vec2_minmax_t *a0 = in(sizeof(cp_vec2_minmax_t), p, 0); cp_vec2_minmax_t *a1 = in(sizeof(cp_vec2_minmax_t), p, 1); cp_vec2_minmax_t *a2 = in(sizeof(cp_vec2_minmax_t), p, 2);
#ifdef CP_VEC2_MINMAX_OR
        cp_vec2_minmax_t w = CP_VEC2_MINMAX_OR(a1, a2);
#endif
        cp_vec2_minmax_or(a0, a1, a2);
#ifdef CP_VEC2_MINMAX_OR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 19: { /* cp_vec3_minmax_or */ cp_vec3_minmax_t *a0 = in(sizeof(cp_vec3_minmax_t), p, 0); cp_vec3_minmax_t *a1 = in(sizeof(cp_vec3_minmax_t), p, 1); cp_vec3_minmax_t *a2 = in(sizeof(cp_vec3_minmax_t), p, 2);
#ifdef CP_VEC3_MINMAX_OR
        cp_vec3_minmax_t w = CP_VEC3_MINMAX_OR(a1, a2);
#endif
        cp_vec3_minmax_or(a0, a1, a2);
#ifdef CP_VEC3_MINMAX_OR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 20: { /* cp_vec4_minmax_or */ cp_vec4_minmax_t *a0 = in(sizeof(cp_vec4_minmax_t), p, 0); cp_vec4_minmax_t *a1 = in(sizeof(cp_vec4_minmax_t), p, 1); cp_vec4_minmax_t *a2 = in(sizeof(cp_vec4_minmax_t), p, 2);
#ifdef CP_VEC4_MINMAX_OR
        cp_vec4_minmax_t w = CP_VEC4_MINMAX_OR(a1, a2);
#endif
        cp_vec4_minmax_or(a0, a1, a2);
#ifdef CP_VEC4_MINMAX_OR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 21: { /* cp_vec2_minmax_and */ cp_vec2_minmax_t *a0 = in(sizeof(cp_vec2_minmax_t), p, 0); cp_vec2_minmax_t *a1 = in(sizeof(cp_vec2_minmax_t), p, 1); cp_vec2_minmax_t *a2 = in(sizeof(cp_vec2_minmax_t), p, 2);
#ifdef CP_VEC2_MINMAX_AND
        cp_vec2_minmax_t w = CP_VEC2_MINMAX_AND(a1, a2);
#endif
        cp_vec2_minmax_and(a0, a1, a2);
#ifdef CP_VEC2_MINMAX_AND
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 22: { /* cp_vec3_minmax_and */ cp_vec3_minmax_t *a0 = in(sizeof(cp_vec3_minmax_t), p, 0); cp_vec3_minmax_t *a1 = in(sizeof(cp_vec3_minmax_t), p, 1); cp_vec3_minmax_t *a2 = in(sizeof(cp_vec3_minmax_t), p, 2);
#ifdef CP_VEC3_MINMAX_AND
        cp_vec3_minmax_t w = CP_VEC3_MINMAX_AND(a1, a2);
#endif
        cp_vec3_minmax_and(a0, a1, a2);
#ifdef CP_VEC3_MINMAX_AND
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 23: { /* cp_vec4_minmax_and */ cp_vec4_minmax_t *a0 = in(sizeof(cp_vec4_minmax_t), p, 0); cp_vec4_minmax_t *a1 = in(sizeof(cp_vec4_minmax_t), p, 1); cp_vec4_minmax_t *a2 = in(sizeof(cp_vec4_minmax_t), p, 2);
#ifdef CP_VEC4_MINMAX_AND
        cp_vec4_minmax_t w = CP_VEC4_MINMAX_AND(a1, a2);
#endif
        cp_vec4_minmax_and(a0, a1, a2);
#ifdef CP_VEC4_MINMAX_AND
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 24: { /* cp_vec2_minmax_valid */ cp_vec2_minmax_t *a0 = in(sizeof(cp_vec2_minmax_t), p, 0); int r = cp_vec2_minmax_valid(a0); wi32(r); break; }
    case 25: { /* cp_vec3_minmax_valid */ cp_vec3_minmax_t *a0 = in(sizeof(cp_vec3_minmax_t), p, 0); int r = cp_vec3_minmax_valid(a0); wi32(r); break; }
    case 26: { /* cp_vec4_minmax_valid */ cp_vec4_minmax_t *a0 = in(sizeof(cp_vec4_minmax_t), p, 0); int r = cp_vec4_minmax_valid(a0); wi32(r); break; }
    case 27: { /* cp_vec2_max_abs_coord */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); double r = cp_vec2_max_abs_coord(a0); wd(r); break; }
    case 28: { /* cp_vec3_max_abs_coord */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); double r = cp_vec3_max_abs_coord(a0); wd(r); break; }
    case 29: { /* cp_vec4_max_abs_coord */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); double r = cp_vec4_max_abs_coord(a0); wd(r); break; }
    case 30: { /* cp_vec2_has_len0 */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); int r = cp_vec2_has_len0(a0); wi32(r); break; }
    case 31: { /* cp_vec3_has_len0 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); int r = cp_vec3_has_len0(a0); wi32(r); break; }
    case 32: { /* cp_vec4_has_len0 */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); int r = cp_vec4_has_len0(a0); wi32(r); break; }
    case 33: { /* cp_vec2_unit */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); int r = cp_vec2_unit(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 34: { /* cp_vec3_unit */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_vec3_unit(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 35: { /* cp_vec4_unit */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); int r = cp_vec4_unit(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 36: { /* cp_vec2_lerp */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); double a3 = rd();
#ifdef CP_VEC2_LERP
        cp_vec2_t w = CP_VEC2_LERP(a1, a2, a3);
#endif
        cp_vec2_lerp(a0, a1, a2, a3);
#ifdef CP_VEC2_LERP
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 37: { /* cp_vec3_lerp */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); double a3 = rd();
#ifdef CP_VEC3_LERP
        cp_vec3_t w = CP_VEC3_LERP(a1, a2, a3);
#endif
        cp_vec3_lerp(a0, a1, a2, a3);
#ifdef CP_VEC3_LERP
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 38: { /* cp_vec4_lerp */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2); double a3 = rd();
#ifdef CP_VEC4_LERP
        cp_vec4_t w = CP_VEC4_LERP(a1, a2, a3);
#endif
        cp_vec4_lerp(a0, a1, a2, a3);
#ifdef CP_VEC4_LERP
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 39: { /* cp_vec2_xform */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_XFORM
        cp_vec2_t w = CP_VEC2_XFORM(a1, a2);
#endif
        cp_vec2_xform(a0, a1, a2);
#ifdef CP_VEC2_XFORM
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 40: { /* cp_vec2w_xform */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); cp_vec2w_xform(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 41: { /* cp_vec3_xform */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_XFORM
        cp_vec3_t w = CP_VEC3_XFORM(a1, a2);
#endif
        cp_vec3_xform(a0, a1, a2);
#ifdef CP_VEC3_XFORM
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 42: { /* cp_vec3w_xform */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3w_xform(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 43: { /* cp_vec4_xform */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_XFORM
        cp_vec4_t w = CP_VEC4_XFORM(a1, a2);
#endif
        cp_vec4_xform(a0, a1, a2);
#ifdef CP_VEC4_XFORM
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 44: { /* cp_mat2i_scale */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2I_SCALE
        cp_mat2i_t w = CP_MAT2I_SCALE(a1, a2);
#endif
        cp_mat2i_scale(a0, a1, a2);
#ifdef CP_MAT2I_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 45: { /* cp_mat2wi_scale */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2WI_SCALE
        cp_mat2wi_t w = CP_MAT2WI_SCALE(a1, a2);
#endif
        cp_mat2wi_scale(a0, a1, a2);
#ifdef CP_MAT2WI_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 46: { /* cp_mat3i_scale */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3I_SCALE
        cp_mat3i_t w = CP_MAT3I_SCALE(a1, a2, a3);
#endif
        cp_mat3i_scale(a0, a1, a2, a3);
#ifdef CP_MAT3I_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 47: { /* cp_mat3wi_scale */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3WI_SCALE
        cp_mat3wi_t w = CP_MAT3WI_SCALE(a1, a2, a3);
#endif
        cp_mat3wi_scale(a0, a1, a2, a3);
#ifdef CP_MAT3WI_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 48: { /* cp_mat4i_scale */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT4I_SCALE
        cp_mat4i_t w = CP_MAT4I_SCALE(a1, a2, a3);
#endif
        cp_mat4i_scale(a0, a1, a2, a3);
#ifdef CP_MAT4I_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 49: { /* cp_mat2_trans */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1);
#ifdef CP_MAT2_TRANS
        cp_mat2_t w = CP_MAT2_TRANS(a1);
#endif
        cp_mat2_trans(a0, a1);
#ifdef CP_MAT2_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 50: { /* cp_mat2w_trans */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); int r = cp_mat2w_trans(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 51: { /* cp_mat2i_trans */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2i_t *a1 = in(sizeof(cp_mat2i_t), p, 1);
#ifdef CP_MAT2I_TRANS
        cp_mat2i_t w = CP_MAT2I_TRANS(a1);
#endif
        cp_mat2i_trans(a0, a1);
#ifdef CP_MAT2I_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 52: { /* cp_mat2wi_trans */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); int r = cp_mat2wi_trans(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 53: { /* cp_mat3_trans */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1);
#ifdef CP_MAT3_TRANS
        cp_mat3_t w = CP_MAT3_TRANS(a1);
#endif
        cp_mat3_trans(a0, a1);
#ifdef CP_MAT3_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 54: { /* cp_mat3w_trans */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); int r = cp_mat3w_trans(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 55: { /* cp_mat3i_trans */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1);
#ifdef CP_MAT3I_TRANS
        cp_mat3i_t w = CP_MAT3I_TRANS(a1);
#endif
        cp_mat3i_trans(a0, a1);
#ifdef CP_MAT3I_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 56: { /* cp_mat3wi_trans */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); int r = cp_mat3wi_trans(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 57: { /* cp_mat4_trans */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1);
#ifdef CP_MAT4_TRANS
        cp_mat4_t w = CP_MAT4_TRANS(a1);
#endif
        cp_mat4_trans(a0, a1);
#ifdef CP_MAT4_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 58: { /* cp_mat4i_trans */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1);
#ifdef CP_MAT4I_TRANS
        cp_mat4i_t w = CP_MAT4I_TRANS(a1);
#endif
        cp_mat4i_trans(a0, a1);
#ifdef CP_MAT4I_TRANS
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 59: { /* cp_mat3i_rot_unit */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3I_ROT_UNIT
        cp_mat3i_t w = CP_MAT3I_ROT_UNIT(a1, a2);
#endif
        cp_mat3i_rot_unit(a0, a1, a2);
#ifdef CP_MAT3I_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 60: { /* cp_mat3wi_rot_unit */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3WI_ROT_UNIT
        cp_mat3wi_t w = CP_MAT3WI_ROT_UNIT(a1, a2);
#endif
        cp_mat3wi_rot_unit(a0, a1, a2);
#ifdef CP_MAT3WI_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 61: { /* cp_mat4i_rot_unit */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT4I_ROT_UNIT
        cp_mat4i_t w = CP_MAT4I_ROT_UNIT(a1, a2);
#endif
        cp_mat4i_rot_unit(a0, a1, a2);
#ifdef CP_MAT4I_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 62: { /* cp_mat3i_rot_unit_into_z */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3I_ROT_UNIT_INTO_Z
        cp_mat3i_t w = CP_MAT3I_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat3i_rot_unit_into_z(a0, a1);
#ifdef CP_MAT3I_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 63: { /* cp_mat3wi_rot_unit_into_z */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3WI_ROT_UNIT_INTO_Z
        cp_mat3wi_t w = CP_MAT3WI_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat3wi_rot_unit_into_z(a0, a1);
#ifdef CP_MAT3WI_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 64: { /* cp_mat4i_rot_unit_into_z */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4I_ROT_UNIT_INTO_Z
        cp_mat4i_t w = CP_MAT4I_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat4i_rot_unit_into_z(a0, a1);
#ifdef CP_MAT4I_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 65: { /* cp_mat3_rot_into_z */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat3_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 66: { /* cp_mat3w_rot_into_z */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat3w_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 67: { /* cp_mat3i_rot_into_z */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat3i_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 68: { /* cp_mat3wi_rot_into_z */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat3wi_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 69: { /* cp_mat4_rot_into_z */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat4_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 70: { /* cp_mat4i_rot_into_z */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_mat4i_rot_into_z(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 71: { /* cp_mat2_rot_ij */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT2_ROT_IJ
        cp_mat2_t w = CP_MAT2_ROT_IJ(a1, a2, a3);
#endif
        cp_mat2_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT2_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 72: { /* cp_mat2i_rot_ij */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT2I_ROT_IJ
        cp_mat2i_t w = CP_MAT2I_ROT_IJ(a1, a2, a3);
#endif
        cp_mat2i_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT2I_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 73: { /* cp_mat2wi_rot_ij */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT2WI_ROT_IJ
        cp_mat2wi_t w = CP_MAT2WI_ROT_IJ(a1, a2, a3);
#endif
        cp_mat2wi_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT2WI_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 74: { /* cp_mat3_rot_ij */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT3_ROT_IJ
        cp_mat3_t w = CP_MAT3_ROT_IJ(a1, a2, a3);
#endif
        cp_mat3_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT3_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 75: { /* cp_mat3i_rot_ij */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT3I_ROT_IJ
        cp_mat3i_t w = CP_MAT3I_ROT_IJ(a1, a2, a3);
#endif
        cp_mat3i_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT3I_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 76: { /* cp_mat3wi_rot_ij */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT3WI_ROT_IJ
        cp_mat3wi_t w = CP_MAT3WI_ROT_IJ(a1, a2, a3);
#endif
        cp_mat3wi_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT3WI_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 77: { /* cp_mat4_rot_ij */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT4_ROT_IJ
        cp_mat4_t w = CP_MAT4_ROT_IJ(a1, a2, a3);
#endif
        cp_mat4_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT4_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 78: { /* cp_mat4i_rot_ij */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT4I_ROT_IJ
        cp_mat4i_t w = CP_MAT4I_ROT_IJ(a1, a2, a3);
#endif
        cp_mat4i_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT4I_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 79: { /* cp_mat3i_rot_x */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3I_ROT_X
        cp_mat3i_t w = CP_MAT3I_ROT_X(a1);
#endif
        cp_mat3i_rot_x(a0, a1);
#ifdef CP_MAT3I_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 80: { /* cp_mat3wi_rot_x */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3WI_ROT_X
        cp_mat3wi_t w = CP_MAT3WI_ROT_X(a1);
#endif
        cp_mat3wi_rot_x(a0, a1);
#ifdef CP_MAT3WI_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 81: { /* cp_mat4i_rot_x */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4I_ROT_X
        cp_mat4i_t w = CP_MAT4I_ROT_X(a1);
#endif
        cp_mat4i_rot_x(a0, a1);
#ifdef CP_MAT4I_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 82: { /* cp_mat3i_rot_y */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3I_ROT_Y
        cp_mat3i_t w = CP_MAT3I_ROT_Y(a1);
#endif
        cp_mat3i_rot_y(a0, a1);
#ifdef CP_MAT3I_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 83: { /* cp_mat3wi_rot_y */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3WI_ROT_Y
        cp_mat3wi_t w = CP_MAT3WI_ROT_Y(a1);
#endif
        cp_mat3wi_rot_y(a0, a1);
#ifdef CP_MAT3WI_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 84: { /* cp_mat4i_rot_y */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4I_ROT_Y
        cp_mat4i_t w = CP_MAT4I_ROT_Y(a1);
#endif
        cp_mat4i_rot_y(a0, a1);
#ifdef CP_MAT4I_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 85: { /* cp_mat2i_rot */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2I_ROT
        cp_mat2i_t w = CP_MAT2I_ROT(a1);
#endif
        cp_mat2i_rot(a0, a1);
#ifdef CP_MAT2I_ROT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 86: { /* cp_mat2wi_rot */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2WI_ROT
        cp_mat2wi_t w = CP_MAT2WI_ROT(a1);
#endif
        cp_mat2wi_rot(a0, a1);
#ifdef CP_MAT2WI_ROT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 87: { /* cp_mat3i_rot_z */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3I_ROT_Z
        cp_mat3i_t w = CP_MAT3I_ROT_Z(a1);
#endif
        cp_mat3i_rot_z(a0, a1);
#ifdef CP_MAT3I_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 88: { /* cp_mat3wi_rot_z */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3WI_ROT_Z
        cp_mat3wi_t w = CP_MAT3WI_ROT_Z(a1);
#endif
        cp_mat3wi_rot_z(a0, a1);
#ifdef CP_MAT3WI_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 89: { /* cp_mat4i_rot_z */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4I_ROT_Z
        cp_mat4i_t w = CP_MAT4I_ROT_Z(a1);
#endif
        cp_mat4i_rot_z(a0, a1);
#ifdef CP_MAT4I_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 90: { /* cp_mat2i_mirror_unit */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2I_MIRROR_UNIT
        cp_mat2i_t w = CP_MAT2I_MIRROR_UNIT(a1);
#endif
        cp_mat2i_mirror_unit(a0, a1);
#ifdef CP_MAT2I_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 91: { /* cp_mat2wi_mirror_unit */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2WI_MIRROR_UNIT
        cp_mat2wi_t w = CP_MAT2WI_MIRROR_UNIT(a1);
#endif
        cp_mat2wi_mirror_unit(a0, a1);
#ifdef CP_MAT2WI_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 92: { /* cp_mat3i_mirror_unit */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3I_MIRROR_UNIT
        cp_mat3i_t w = CP_MAT3I_MIRROR_UNIT(a1);
#endif
        cp_mat3i_mirror_unit(a0, a1);
#ifdef CP_MAT3I_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 93: { /* cp_mat3wi_mirror_unit */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3WI_MIRROR_UNIT
        cp_mat3wi_t w = CP_MAT3WI_MIRROR_UNIT(a1);
#endif
        cp_mat3wi_mirror_unit(a0, a1);
#ifdef CP_MAT3WI_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 94: { /* cp_mat4i_mirror_unit */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4I_MIRROR_UNIT
        cp_mat4i_t w = CP_MAT4I_MIRROR_UNIT(a1);
#endif
        cp_mat4i_mirror_unit(a0, a1);
#ifdef CP_MAT4I_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 95: { /* cp_mat2_mul */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); cp_mat2_t *a2 = in(sizeof(cp_mat2_t), p, 2);
#ifdef CP_MAT2_MUL
        cp_mat2_t w = CP_MAT2_MUL(a1, a2);
#endif
        cp_mat2_mul(a0, a1, a2);
#ifdef CP_MAT2_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 96: { /* cp_mat2w_mul */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); cp_mat2w_t *a2 = in(sizeof(cp_mat2w_t), p, 2);
#ifdef CP_MAT2W_MUL
        cp_mat2w_t w = CP_MAT2W_MUL(a1, a2);
#endif
        cp_mat2w_mul(a0, a1, a2);
#ifdef CP_MAT2W_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 97: { /* cp_mat2i_mul */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2i_t *a1 = in(sizeof(cp_mat2i_t), p, 1); cp_mat2i_t *a2 = in(sizeof(cp_mat2i_t), p, 2);
#ifdef CP_MAT2I_MUL
        cp_mat2i_t w = CP_MAT2I_MUL(a1, a2);
#endif
        cp_mat2i_mul(a0, a1, a2);
#ifdef CP_MAT2I_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 98: { /* cp_mat2wi_mul */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); cp_mat2wi_t *a2 = in(sizeof(cp_mat2wi_t), p, 2);
#ifdef CP_MAT2WI_MUL
        cp_mat2wi_t w = CP_MAT2WI_MUL(a1, a2);
#endif
        cp_mat2wi_mul(a0, a1, a2);
#ifdef CP_MAT2WI_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 99: { /* cp_mat3_mul */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); cp_mat3_t *a2 = in(sizeof(cp_mat3_t), p, 2);
#ifdef CP_MAT3_MUL
        cp_mat3_t w = CP_MAT3_MUL(a1, a2);
#endif
        cp_mat3_mul(a0, a1, a2);
#ifdef CP_MAT3_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 100: { /* cp_mat3w_mul */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); cp_mat3w_t *a2 = in(sizeof(cp_mat3w_t), p, 2);
#ifdef CP_MAT3W_MUL
        cp_mat3w_t w = CP_MAT3W_MUL(a1, a2);
#endif
        cp_mat3w_mul(a0, a1, a2);
#ifdef CP_MAT3W_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 101: { /* cp_mat3i_mul */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1); cp_mat3i_t *a2 = in(sizeof(cp_mat3i_t), p, 2);
#ifdef CP_MAT3I_MUL
        cp_mat3i_t w = CP_MAT3I_MUL(a1, a2);
#endif
        cp_mat3i_mul(a0, a1, a2);
#ifdef CP_MAT3I_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 102: { /* cp_mat3wi_mul */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); cp_mat3wi_t *a2 = in(sizeof(cp_mat3wi_t), p, 2);
#ifdef CP_MAT3WI_MUL
        cp_mat3wi_t w = CP_MAT3WI_MUL(a1, a2);
#endif
        cp_mat3wi_mul(a0, a1, a2);
#ifdef CP_MAT3WI_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 103: { /* cp_mat4_mul */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); cp_mat4_t *a2 = in(sizeof(cp_mat4_t), p, 2);
#ifdef CP_MAT4_MUL
        cp_mat4_t w = CP_MAT4_MUL(a1, a2);
#endif
        cp_mat4_mul(a0, a1, a2);
#ifdef CP_MAT4_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 104: { /* cp_mat4i_mul */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1); cp_mat4i_t *a2 = in(sizeof(cp_mat4i_t), p, 2);
#ifdef CP_MAT4I_MUL
        cp_mat4i_t w = CP_MAT4I_MUL(a1, a2);
#endif
        cp_mat4i_mul(a0, a1, a2);
#ifdef CP_MAT4I_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 105: { /* cp_mat2i_inv */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2i_t *a1 = in(sizeof(cp_mat2i_t), p, 1);
#ifdef CP_MAT2I_INV
        cp_mat2i_t w = CP_MAT2I_INV(a1);
#endif
        cp_mat2i_inv(a0, a1);
#ifdef CP_MAT2I_INV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 106: { /* cp_mat2wi_inv */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1);
#ifdef CP_MAT2WI_INV
        cp_mat2wi_t w = CP_MAT2WI_INV(a1);
#endif
        cp_mat2wi_inv(a0, a1);
#ifdef CP_MAT2WI_INV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 107: { /* cp_mat3i_inv */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1);
#ifdef CP_MAT3I_INV
        cp_mat3i_t w = CP_MAT3I_INV(a1);
#endif
        cp_mat3i_inv(a0, a1);
#ifdef CP_MAT3I_INV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 108: { /* cp_mat3wi_inv */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1);
#ifdef CP_MAT3WI_INV
        cp_mat3wi_t w = CP_MAT3WI_INV(a1);
#endif
        cp_mat3wi_inv(a0, a1);
#ifdef CP_MAT3WI_INV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 109: { /* cp_mat4i_inv */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1);
#ifdef CP_MAT4I_INV
        cp_mat4i_t w = CP_MAT4I_INV(a1);
#endif
        cp_mat4i_inv(a0, a1);
#ifdef CP_MAT4I_INV
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 110: { /* cp_vec2_lex_cmp */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); int r = cp_vec2_lex_cmp(a0, a1); wi32(r); break; }
    case 111: { /* cp_vec3_lex_cmp */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_vec3_lex_cmp(a0, a1); wi32(r); break; }
    case 112: { /* cp_vec4_lex_cmp */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); int r = cp_vec4_lex_cmp(a0, a1); wi32(r); break; }
    case 113: { /* cp_mat2_lex_cmp */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); int r = cp_mat2_lex_cmp(a0, a1); wi32(r); break; }
    case 114: { /* cp_mat2w_lex_cmp */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); int r = cp_mat2w_lex_cmp(a0, a1); wi32(r); break; }
    case 115: { /* cp_mat2i_lex_cmp */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2i_t *a1 = in(sizeof(cp_mat2i_t), p, 1); int r = cp_mat2i_lex_cmp(a0, a1); wi32(r); break; }
    case 116: { /* cp_mat2wi_lex_cmp */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); int r = cp_mat2wi_lex_cmp(a0, a1); wi32(r); break; }
    case 117: { /* cp_mat3_lex_cmp */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); int r = cp_mat3_lex_cmp(a0, a1); wi32(r); break; }
    case 118: { /* cp_mat3w_lex_cmp */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); int r = cp_mat3w_lex_cmp(a0, a1); wi32(r); break; }
    case 119: { /* cp_mat3i_lex_cmp */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1); int r = cp_mat3i_lex_cmp(a0, a1); wi32(r); break; }
    case 120: { /* cp_mat3wi_lex_cmp */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); int r = cp_mat3wi_lex_cmp(a0, a1); wi32(r); break; }
    case 121: { /* cp_mat4_lex_cmp */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); int r = cp_mat4_lex_cmp(a0, a1); wi32(r); break; }
    case 122: { /* cp_mat4i_lex_cmp */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1); int r = cp_mat4i_lex_cmp(a0, a1); wi32(r); break; }
    case 123: { /* cp_vec2_eq */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); int r = cp_vec2_eq(a0, a1); wi32(r); break; }
    case 124: { /* cp_vec3_eq */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_vec3_eq(a0, a1); wi32(r); break; }
    case 125: { /* cp_vec4_eq */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); int r = cp_vec4_eq(a0, a1); wi32(r); break; }
    case 126: { /* cp_mat2_eq */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); int r = cp_mat2_eq(a0, a1); wi32(r); break; }
    case 127: { /* cp_mat2w_eq */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); int r = cp_mat2w_eq(a0, a1); wi32(r); break; }
    case 128: { /* cp_mat2i_eq */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2i_t *a1 = in(sizeof(cp_mat2i_t), p, 1); int r = cp_mat2i_eq(a0, a1); wi32(r); break; }
    case 129: { /* cp_mat2wi_eq */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); int r = cp_mat2wi_eq(a0, a1); wi32(r); break; }
    case 130: { /* cp_mat3_eq */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); int r = cp_mat3_eq(a0, a1); wi32(r); break; }
    case 131: { /* cp_mat3w_eq */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); int r = cp_mat3w_eq(a0, a1); wi32(r); break; }
    case 132: { /* cp_mat3i_eq */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1); int r = cp_mat3i_eq(a0, a1); wi32(r); break; }
    case 133: { /* cp_mat3wi_eq */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); int r = cp_mat3wi_eq(a0, a1); wi32(r); break; }
    case 134: { /* cp_mat4_eq */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); int r = cp_mat4_eq(a0, a1); wi32(r); break; }
    case 135: { /* cp_mat4i_eq */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1); int r = cp_mat4i_eq(a0, a1); wi32(r); break; }
    case 136: { /* cp_vec2_add */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_ADD
        cp_vec2_t w = CP_VEC2_ADD(a1, a2);
#endif
        cp_vec2_add(a0, a1, a2);
#ifdef CP_VEC2_ADD
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 137: { /* cp_vec3_add */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_ADD
        cp_vec3_t w = CP_VEC3_ADD(a1, a2);
#endif
        cp_vec3_add(a0, a1, a2);
#ifdef CP_VEC3_ADD
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 138: { /* cp_vec4_add */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_ADD
        cp_vec4_t w = CP_VEC4_ADD(a1, a2);
#endif
        cp_vec4_add(a0, a1, a2);
#ifdef CP_VEC4_ADD
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 139: { /* cp_vec2_neg */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_VEC2_NEG
        cp_vec2_t w = CP_VEC2_NEG(a1);
#endif
        cp_vec2_neg(a0, a1);
#ifdef CP_VEC2_NEG
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 140: { /* cp_vec3_neg */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_VEC3_NEG
        cp_vec3_t w = CP_VEC3_NEG(a1);
#endif
        cp_vec3_neg(a0, a1);
#ifdef CP_VEC3_NEG
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 141: { /* cp_vec4_neg */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1);
#ifdef CP_VEC4_NEG
        cp_vec4_t w = CP_VEC4_NEG(a1);
#endif
        cp_vec4_neg(a0, a1);
#ifdef CP_VEC4_NEG
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 142: { /* cp_vec2_sub */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_SUB
        cp_vec2_t w = CP_VEC2_SUB(a1, a2);
#endif
        cp_vec2_sub(a0, a1, a2);
#ifdef CP_VEC2_SUB
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 143: { /* cp_vec3_sub */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_SUB
        cp_vec3_t w = CP_VEC3_SUB(a1, a2);
#endif
        cp_vec3_sub(a0, a1, a2);
#ifdef CP_VEC3_SUB
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 144: { /* cp_vec4_sub */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_SUB
        cp_vec4_t w = CP_VEC4_SUB(a1, a2);
#endif
        cp_vec4_sub(a0, a1, a2);
#ifdef CP_VEC4_SUB
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 145: { /* cp_vec2_mulc */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_MULC
        cp_vec2_t w = CP_VEC2_MULC(a1, a2);
#endif
        cp_vec2_mulc(a0, a1, a2);
#ifdef CP_VEC2_MULC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 146: { /* cp_vec3_mulc */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_MULC
        cp_vec3_t w = CP_VEC3_MULC(a1, a2);
#endif
        cp_vec3_mulc(a0, a1, a2);
#ifdef CP_VEC3_MULC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 147: { /* cp_vec4_mulc */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_MULC
        cp_vec4_t w = CP_VEC4_MULC(a1, a2);
#endif
        cp_vec4_mulc(a0, a1, a2);
#ifdef CP_VEC4_MULC
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 148: { /* cp_vec2_mul */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double a2 = rd();
#ifdef CP_VEC2_MUL
        cp_vec2_t w = CP_VEC2_MUL(a1, a2);
#endif
        cp_vec2_mul(a0, a1, a2);
#ifdef CP_VEC2_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 149: { /* cp_vec3_mul */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double a2 = rd();
#ifdef CP_VEC3_MUL
        cp_vec3_t w = CP_VEC3_MUL(a1, a2);
#endif
        cp_vec3_mul(a0, a1, a2);
#ifdef CP_VEC3_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 150: { /* cp_vec4_mul */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); double a2 = rd();
#ifdef CP_VEC4_MUL
        cp_vec4_t w = CP_VEC4_MUL(a1, a2);
#endif
        cp_vec4_mul(a0, a1, a2);
#ifdef CP_VEC4_MUL
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 151: { /* cp_vec2_dot */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double r = cp_vec2_dot(a0, a1); wd(r); break; }
    case 152: { /* cp_vec3_dot */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double r = cp_vec3_dot(a0, a1); wd(r); break; }
    case 153: { /* cp_vec4_dot */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); double r = cp_vec4_dot(a0, a1); wd(r); break; }
    case 154: { /* cp_vec2_sqr_len */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); double r = cp_vec2_sqr_len(a0); wd(r); break; }
    case 155: { /* cp_vec3_sqr_len */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); double r = cp_vec3_sqr_len(a0); wd(r); break; }
    case 156: { /* cp_vec4_sqr_len */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); double r = cp_vec4_sqr_len(a0); wd(r); break; }
    case 157: { /* cp_vec2_len */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); double r = cp_vec2_len(a0); wd(r); break; }
    case 158: { /* cp_vec3_len */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); double r = cp_vec3_len(a0); wd(r); break; }
    case 159: { /* cp_vec4_len */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); double r = cp_vec4_len(a0); wd(r); break; }
    case 160: { /* cp_vec2_has_len1 */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); int r = cp_vec2_has_len1(a0); wi32(r); break; }
    case 161: { /* cp_vec3_has_len1 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); int r = cp_vec3_has_len1(a0); wi32(r); break; }
    case 162: { /* cp_vec4_has_len1 */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); int r = cp_vec4_has_len1(a0); wi32(r); break; }
    case 163: { /* cp_vec2_has_len0_or_1 */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); int r = cp_vec2_has_len0_or_1(a0); wi32(r); break; }
    case 164: { /* cp_vec3_has_len0_or_1 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); int r = cp_vec3_has_len0_or_1(a0); wi32(r); break; }
    case 165: { /* cp_vec4_has_len0_or_1 */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); int r = cp_vec4_has_len0_or_1(a0); wi32(r); break; }
    case 166: { /* cp_vec2_sqr_dist */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double r = cp_vec2_sqr_dist(a0, a1); wd(r); break; }
    case 167: { /* cp_vec3_sqr_dist */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double r = cp_vec3_sqr_dist(a0, a1); wd(r); break; }
    case 168: { /* cp_vec4_sqr_dist */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); double r = cp_vec4_sqr_dist(a0, a1); wd(r); break; }
    case 169: { /* cp_vec2_dist */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double r = cp_vec2_dist(a0, a1); wd(r); break; }
    case 170: { /* cp_vec3_dist */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double r = cp_vec3_dist(a0, a1); wd(r); break; }
    case 171: { /* cp_vec4_dist */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); double r = cp_vec4_dist(a0, a1); wd(r); break; }
    case 172: { /* cp_vec2_dir */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_VEC2_DIR
        cp_vec2_t w = CP_VEC2_DIR(a1, a2);
#endif
        cp_vec2_dir(a0, a1, a2);
#ifdef CP_VEC2_DIR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 173: { /* cp_vec3_dir */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2);
#ifdef CP_VEC3_DIR
        cp_vec3_t w = CP_VEC3_DIR(a1, a2);
#endif
        cp_vec3_dir(a0, a1, a2);
#ifdef CP_VEC3_DIR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 174: { /* cp_vec4_dir */ cp_vec4_t *a0 = in(sizeof(cp_vec4_t), p, 0); cp_vec4_t *a1 = in(sizeof(cp_vec4_t), p, 1); cp_vec4_t *a2 = in(sizeof(cp_vec4_t), p, 2);
#ifdef CP_VEC4_DIR
        cp_vec4_t w = CP_VEC4_DIR(a1, a2);
#endif
        cp_vec4_dir(a0, a1, a2);
#ifdef CP_VEC4_DIR
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 175: { /* cp_mat2_scale */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2_SCALE
        cp_mat2_t w = CP_MAT2_SCALE(a1, a2);
#endif
        cp_mat2_scale(a0, a1, a2);
#ifdef CP_MAT2_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 176: { /* cp_mat2w_scale */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2W_SCALE
        cp_mat2w_t w = CP_MAT2W_SCALE(a1, a2);
#endif
        cp_mat2w_scale(a0, a1, a2);
#ifdef CP_MAT2W_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 177: { /* cp_mat3_scale */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3_SCALE
        cp_mat3_t w = CP_MAT3_SCALE(a1, a2, a3);
#endif
        cp_mat3_scale(a0, a1, a2, a3);
#ifdef CP_MAT3_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 178: { /* cp_mat3w_scale */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3W_SCALE
        cp_mat3w_t w = CP_MAT3W_SCALE(a1, a2, a3);
#endif
        cp_mat3w_scale(a0, a1, a2, a3);
#ifdef CP_MAT3W_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 179: { /* cp_mat4_scale */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT4_SCALE
        cp_mat4_t w = CP_MAT4_SCALE(a1, a2, a3);
#endif
        cp_mat4_scale(a0, a1, a2, a3);
#ifdef CP_MAT4_SCALE
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 180: { /* cp_mat2_scale1 */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); double a1 = rd();
#ifdef CP_MAT2_SCALE1
        cp_mat2_t w = CP_MAT2_SCALE1(a1);
#endif
        cp_mat2_scale1(a0, a1);
#ifdef CP_MAT2_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 181: { /* cp_mat2w_scale1 */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); double a1 = rd();
#ifdef CP_MAT2W_SCALE1
        cp_mat2w_t w = CP_MAT2W_SCALE1(a1);
#endif
        cp_mat2w_scale1(a0, a1);
#ifdef CP_MAT2W_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 182: { /* cp_mat2i_scale1 */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); double a1 = rd();
#ifdef CP_MAT2I_SCALE1
        cp_mat2i_t w = CP_MAT2I_SCALE1(a1);
#endif
        cp_mat2i_scale1(a0, a1);
#ifdef CP_MAT2I_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 183: { /* cp_mat2wi_scale1 */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); double a1 = rd();
#ifdef CP_MAT2WI_SCALE1
        cp_mat2wi_t w = CP_MAT2WI_SCALE1(a1);
#endif
        cp_mat2wi_scale1(a0, a1);
#ifdef CP_MAT2WI_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 184: { /* cp_mat3_scale1 */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); double a1 = rd();
#ifdef CP_MAT3_SCALE1
        cp_mat3_t w = CP_MAT3_SCALE1(a1);
#endif
        cp_mat3_scale1(a0, a1);
#ifdef CP_MAT3_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 185: { /* cp_mat3w_scale1 */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); double a1 = rd();
#ifdef CP_MAT3W_SCALE1
        cp_mat3w_t w = CP_MAT3W_SCALE1(a1);
#endif
        cp_mat3w_scale1(a0, a1);
#ifdef CP_MAT3W_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 186: { /* cp_mat3i_scale1 */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); double a1 = rd();
#ifdef CP_MAT3I_SCALE1
        cp_mat3i_t w = CP_MAT3I_SCALE1(a1);
#endif
        cp_mat3i_scale1(a0, a1);
#ifdef CP_MAT3I_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 187: { /* cp_mat3wi_scale1 */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); double a1 = rd();
#ifdef CP_MAT3WI_SCALE1
        cp_mat3wi_t w = CP_MAT3WI_SCALE1(a1);
#endif
        cp_mat3wi_scale1(a0, a1);
#ifdef CP_MAT3WI_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 188: { /* cp_mat4_scale1 */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); double a1 = rd();
#ifdef CP_MAT4_SCALE1
        cp_mat4_t w = CP_MAT4_SCALE1(a1);
#endif
        cp_mat4_scale1(a0, a1);
#ifdef CP_MAT4_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 189: { /* cp_mat4i_scale1 */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); double a1 = rd();
#ifdef CP_MAT4I_SCALE1
        cp_mat4i_t w = CP_MAT4I_SCALE1(a1);
#endif
        cp_mat4i_scale1(a0, a1);
#ifdef CP_MAT4I_SCALE1
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 190: { /* cp_mat2_scale_v */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2_SCALE_V
        cp_mat2_t w = CP_MAT2_SCALE_V(a1);
#endif
        cp_mat2_scale_v(a0, a1);
#ifdef CP_MAT2_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 191: { /* cp_mat2w_scale_v */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2W_SCALE_V
        cp_mat2w_t w = CP_MAT2W_SCALE_V(a1);
#endif
        cp_mat2w_scale_v(a0, a1);
#ifdef CP_MAT2W_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 192: { /* cp_mat2i_scale_v */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2I_SCALE_V
        cp_mat2i_t w = CP_MAT2I_SCALE_V(a1);
#endif
        cp_mat2i_scale_v(a0, a1);
#ifdef CP_MAT2I_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 193: { /* cp_mat2wi_scale_v */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2WI_SCALE_V
        cp_mat2wi_t w = CP_MAT2WI_SCALE_V(a1);
#endif
        cp_mat2wi_scale_v(a0, a1);
#ifdef CP_MAT2WI_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 194: { /* cp_mat3_scale_v */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3_SCALE_V
        cp_mat3_t w = CP_MAT3_SCALE_V(a1);
#endif
        cp_mat3_scale_v(a0, a1);
#ifdef CP_MAT3_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 195: { /* cp_mat3w_scale_v */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3W_SCALE_V
        cp_mat3w_t w = CP_MAT3W_SCALE_V(a1);
#endif
        cp_mat3w_scale_v(a0, a1);
#ifdef CP_MAT3W_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 196: { /* cp_mat3i_scale_v */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3I_SCALE_V
        cp_mat3i_t w = CP_MAT3I_SCALE_V(a1);
#endif
        cp_mat3i_scale_v(a0, a1);
#ifdef CP_MAT3I_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 197: { /* cp_mat3wi_scale_v */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3WI_SCALE_V
        cp_mat3wi_t w = CP_MAT3WI_SCALE_V(a1);
#endif
        cp_mat3wi_scale_v(a0, a1);
#ifdef CP_MAT3WI_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 198: { /* cp_mat4_scale_v */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4_SCALE_V
        cp_mat4_t w = CP_MAT4_SCALE_V(a1);
#endif
        cp_mat4_scale_v(a0, a1);
#ifdef CP_MAT4_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 199: { /* cp_mat4i_scale_v */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4I_SCALE_V
        cp_mat4i_t w = CP_MAT4I_SCALE_V(a1);
#endif
        cp_mat4i_scale_v(a0, a1);
#ifdef CP_MAT4I_SCALE_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 200: { /* cp_mat2_unit */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0);
#ifdef CP_MAT2_UNIT
        cp_mat2_t w = CP_MAT2_UNIT();
#endif
        cp_mat2_unit(a0);
#ifdef CP_MAT2_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 201: { /* cp_mat2w_unit */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0);
#ifdef CP_MAT2W_UNIT
        cp_mat2w_t w = CP_MAT2W_UNIT();
#endif
        cp_mat2w_unit(a0);
#ifdef CP_MAT2W_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 202: { /* cp_mat2i_unit */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0);
#ifdef CP_MAT2I_UNIT
        cp_mat2i_t w = CP_MAT2I_UNIT();
#endif
        cp_mat2i_unit(a0);
#ifdef CP_MAT2I_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 203: { /* cp_mat2wi_unit */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0);
#ifdef CP_MAT2WI_UNIT
        cp_mat2wi_t w = CP_MAT2WI_UNIT();
#endif
        cp_mat2wi_unit(a0);
#ifdef CP_MAT2WI_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 204: { /* cp_mat3_unit */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0);
#ifdef CP_MAT3_UNIT
        cp_mat3_t w = CP_MAT3_UNIT();
#endif
        cp_mat3_unit(a0);
#ifdef CP_MAT3_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 205: { /* cp_mat3w_unit */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0);
#ifdef CP_MAT3W_UNIT
        cp_mat3w_t w = CP_MAT3W_UNIT();
#endif
        cp_mat3w_unit(a0);
#ifdef CP_MAT3W_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 206: { /* cp_mat3i_unit */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0);
#ifdef CP_MAT3I_UNIT
        cp_mat3i_t w = CP_MAT3I_UNIT();
#endif
        cp_mat3i_unit(a0);
#ifdef CP_MAT3I_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 207: { /* cp_mat3wi_unit */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0);
#ifdef CP_MAT3WI_UNIT
        cp_mat3wi_t w = CP_MAT3WI_UNIT();
#endif
        cp_mat3wi_unit(a0);
#ifdef CP_MAT3WI_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 208: { /* cp_mat4_unit */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0);
#ifdef CP_MAT4_UNIT
        cp_mat4_t w = CP_MAT4_UNIT();
#endif
        cp_mat4_unit(a0);
#ifdef CP_MAT4_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 209: { /* cp_mat4i_unit */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0);
#ifdef CP_MAT4I_UNIT
        cp_mat4i_t w = CP_MAT4I_UNIT();
#endif
        cp_mat4i_unit(a0);
#ifdef CP_MAT4I_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 210: { /* cp_mat3_rot_unit */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3_ROT_UNIT
        cp_mat3_t w = CP_MAT3_ROT_UNIT(a1, a2);
#endif
        cp_mat3_rot_unit(a0, a1, a2);
#ifdef CP_MAT3_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 211: { /* cp_mat3w_rot_unit */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3W_ROT_UNIT
        cp_mat3w_t w = CP_MAT3W_ROT_UNIT(a1, a2);
#endif
        cp_mat3w_rot_unit(a0, a1, a2);
#ifdef CP_MAT3W_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 212: { /* cp_mat4_rot_unit */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT4_ROT_UNIT
        cp_mat4_t w = CP_MAT4_ROT_UNIT(a1, a2);
#endif
        cp_mat4_rot_unit(a0, a1, a2);
#ifdef CP_MAT4_ROT_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 213: { /* cp_mat3_rot_v */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3_ROT_V
        cp_mat3_t w = CP_MAT3_ROT_V(a1, a2);
#endif
        cp_mat3_rot_v(a0, a1, a2);
#ifdef CP_MAT3_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 214: { /* cp_mat3w_rot_v */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3W_ROT_V
        cp_mat3w_t w = CP_MAT3W_ROT_V(a1, a2);
#endif
        cp_mat3w_rot_v(a0, a1, a2);
#ifdef CP_MAT3W_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 215: { /* cp_mat3i_rot_v */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3I_ROT_V
        cp_mat3i_t w = CP_MAT3I_ROT_V(a1, a2);
#endif
        cp_mat3i_rot_v(a0, a1, a2);
#ifdef CP_MAT3I_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 216: { /* cp_mat3wi_rot_v */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT3WI_ROT_V
        cp_mat3wi_t w = CP_MAT3WI_ROT_V(a1, a2);
#endif
        cp_mat3wi_rot_v(a0, a1, a2);
#ifdef CP_MAT3WI_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 217: { /* cp_mat4_rot_v */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT4_ROT_V
        cp_mat4_t w = CP_MAT4_ROT_V(a1, a2);
#endif
        cp_mat4_rot_v(a0, a1, a2);
#ifdef CP_MAT4_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 218: { /* cp_mat4i_rot_v */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2);
#ifdef CP_MAT4I_ROT_V
        cp_mat4i_t w = CP_MAT4I_ROT_V(a1, a2);
#endif
        cp_mat4i_rot_v(a0, a1, a2);
#ifdef CP_MAT4I_ROT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 219: { /* cp_mat3_rot_unit_into_z */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3_ROT_UNIT_INTO_Z
        cp_mat3_t w = CP_MAT3_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat3_rot_unit_into_z(a0, a1);
#ifdef CP_MAT3_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 220: { /* cp_mat3w_rot_unit_into_z */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3W_ROT_UNIT_INTO_Z
        cp_mat3w_t w = CP_MAT3W_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat3w_rot_unit_into_z(a0, a1);
#ifdef CP_MAT3W_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 221: { /* cp_mat4_rot_unit_into_z */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4_ROT_UNIT_INTO_Z
        cp_mat4_t w = CP_MAT4_ROT_UNIT_INTO_Z(a1);
#endif
        cp_mat4_rot_unit_into_z(a0, a1);
#ifdef CP_MAT4_ROT_UNIT_INTO_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 222: { /* cp_mat2w_rot_ij */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT2W_ROT_IJ
        cp_mat2w_t w = CP_MAT2W_ROT_IJ(a1, a2, a3);
#endif
        cp_mat2w_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT2W_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 223: { /* cp_mat3w_rot_ij */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); size_t a1 = r32(); size_t a2 = r32(); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3);
#ifdef CP_MAT3W_ROT_IJ
        cp_mat3w_t w = CP_MAT3W_ROT_IJ(a1, a2, a3);
#endif
        cp_mat3w_rot_ij(a0, a1, a2, a3);
#ifdef CP_MAT3W_ROT_IJ
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 224: { /* cp_mat3_rot_x */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3_ROT_X
        cp_mat3_t w = CP_MAT3_ROT_X(a1);
#endif
        cp_mat3_rot_x(a0, a1);
#ifdef CP_MAT3_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 225: { /* cp_mat3w_rot_x */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3W_ROT_X
        cp_mat3w_t w = CP_MAT3W_ROT_X(a1);
#endif
        cp_mat3w_rot_x(a0, a1);
#ifdef CP_MAT3W_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 226: { /* cp_mat4_rot_x */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4_ROT_X
        cp_mat4_t w = CP_MAT4_ROT_X(a1);
#endif
        cp_mat4_rot_x(a0, a1);
#ifdef CP_MAT4_ROT_X
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 227: { /* cp_mat3_rot_y */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3_ROT_Y
        cp_mat3_t w = CP_MAT3_ROT_Y(a1);
#endif
        cp_mat3_rot_y(a0, a1);
#ifdef CP_MAT3_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 228: { /* cp_mat3w_rot_y */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3W_ROT_Y
        cp_mat3w_t w = CP_MAT3W_ROT_Y(a1);
#endif
        cp_mat3w_rot_y(a0, a1);
#ifdef CP_MAT3W_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 229: { /* cp_mat4_rot_y */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4_ROT_Y
        cp_mat4_t w = CP_MAT4_ROT_Y(a1);
#endif
        cp_mat4_rot_y(a0, a1);
#ifdef CP_MAT4_ROT_Y
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 230: { /* cp_mat2_rot */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2_ROT
        cp_mat2_t w = CP_MAT2_ROT(a1);
#endif
        cp_mat2_rot(a0, a1);
#ifdef CP_MAT2_ROT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 231: { /* cp_mat2w_rot */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2W_ROT
        cp_mat2w_t w = CP_MAT2W_ROT(a1);
#endif
        cp_mat2w_rot(a0, a1);
#ifdef CP_MAT2W_ROT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 232: { /* cp_mat3_rot_z */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3_ROT_Z
        cp_mat3_t w = CP_MAT3_ROT_Z(a1);
#endif
        cp_mat3_rot_z(a0, a1);
#ifdef CP_MAT3_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 233: { /* cp_mat3w_rot_z */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3W_ROT_Z
        cp_mat3w_t w = CP_MAT3W_ROT_Z(a1);
#endif
        cp_mat3w_rot_z(a0, a1);
#ifdef CP_MAT3W_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 234: { /* cp_mat4_rot_z */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT4_ROT_Z
        cp_mat4_t w = CP_MAT4_ROT_Z(a1);
#endif
        cp_mat4_rot_z(a0, a1);
#ifdef CP_MAT4_ROT_Z
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 235: { /* cp_mat2_mirror_unit */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2_MIRROR_UNIT
        cp_mat2_t w = CP_MAT2_MIRROR_UNIT(a1);
#endif
        cp_mat2_mirror_unit(a0, a1);
#ifdef CP_MAT2_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 236: { /* cp_mat2w_mirror_unit */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2W_MIRROR_UNIT
        cp_mat2w_t w = CP_MAT2W_MIRROR_UNIT(a1);
#endif
        cp_mat2w_mirror_unit(a0, a1);
#ifdef CP_MAT2W_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 237: { /* cp_mat3_mirror_unit */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3_MIRROR_UNIT
        cp_mat3_t w = CP_MAT3_MIRROR_UNIT(a1);
#endif
        cp_mat3_mirror_unit(a0, a1);
#ifdef CP_MAT3_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 238: { /* cp_mat3w_mirror_unit */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3W_MIRROR_UNIT
        cp_mat3w_t w = CP_MAT3W_MIRROR_UNIT(a1);
#endif
        cp_mat3w_mirror_unit(a0, a1);
#ifdef CP_MAT3W_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 239: { /* cp_mat4_mirror_unit */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4_MIRROR_UNIT
        cp_mat4_t w = CP_MAT4_MIRROR_UNIT(a1);
#endif
        cp_mat4_mirror_unit(a0, a1);
#ifdef CP_MAT4_MIRROR_UNIT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 240: { /* cp_mat2_mirror_v */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2_MIRROR_V
        cp_mat2_t w = CP_MAT2_MIRROR_V(a1);
#endif
        cp_mat2_mirror_v(a0, a1);
#ifdef CP_MAT2_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 241: { /* cp_mat2w_mirror_v */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2W_MIRROR_V
        cp_mat2w_t w = CP_MAT2W_MIRROR_V(a1);
#endif
        cp_mat2w_mirror_v(a0, a1);
#ifdef CP_MAT2W_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 242: { /* cp_mat2i_mirror_v */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2I_MIRROR_V
        cp_mat2i_t w = CP_MAT2I_MIRROR_V(a1);
#endif
        cp_mat2i_mirror_v(a0, a1);
#ifdef CP_MAT2I_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 243: { /* cp_mat2wi_mirror_v */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2WI_MIRROR_V
        cp_mat2wi_t w = CP_MAT2WI_MIRROR_V(a1);
#endif
        cp_mat2wi_mirror_v(a0, a1);
#ifdef CP_MAT2WI_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 244: { /* cp_mat3_mirror_v */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3_MIRROR_V
        cp_mat3_t w = CP_MAT3_MIRROR_V(a1);
#endif
        cp_mat3_mirror_v(a0, a1);
#ifdef CP_MAT3_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 245: { /* cp_mat3w_mirror_v */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3W_MIRROR_V
        cp_mat3w_t w = CP_MAT3W_MIRROR_V(a1);
#endif
        cp_mat3w_mirror_v(a0, a1);
#ifdef CP_MAT3W_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 246: { /* cp_mat3i_mirror_v */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3I_MIRROR_V
        cp_mat3i_t w = CP_MAT3I_MIRROR_V(a1);
#endif
        cp_mat3i_mirror_v(a0, a1);
#ifdef CP_MAT3I_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 247: { /* cp_mat3wi_mirror_v */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3WI_MIRROR_V
        cp_mat3wi_t w = CP_MAT3WI_MIRROR_V(a1);
#endif
        cp_mat3wi_mirror_v(a0, a1);
#ifdef CP_MAT3WI_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 248: { /* cp_mat4_mirror_v */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4_MIRROR_V
        cp_mat4_t w = CP_MAT4_MIRROR_V(a1);
#endif
        cp_mat4_mirror_v(a0, a1);
#ifdef CP_MAT4_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 249: { /* cp_mat4i_mirror_v */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4I_MIRROR_V
        cp_mat4i_t w = CP_MAT4I_MIRROR_V(a1);
#endif
        cp_mat4i_mirror_v(a0, a1);
#ifdef CP_MAT4I_MIRROR_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 250: { /* cp_mat2w_xlat */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2W_XLAT
        cp_mat2w_t w = CP_MAT2W_XLAT(a1, a2);
#endif
        cp_mat2w_xlat(a0, a1, a2);
#ifdef CP_MAT2W_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 251: { /* cp_mat2wi_xlat */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT2WI_XLAT
        cp_mat2wi_t w = CP_MAT2WI_XLAT(a1, a2);
#endif
        cp_mat2wi_xlat(a0, a1, a2);
#ifdef CP_MAT2WI_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 252: { /* cp_mat3_xlat */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT3_XLAT
        cp_mat3_t w = CP_MAT3_XLAT(a1, a2);
#endif
        cp_mat3_xlat(a0, a1, a2);
#ifdef CP_MAT3_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 253: { /* cp_mat3w_xlat */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3W_XLAT
        cp_mat3w_t w = CP_MAT3W_XLAT(a1, a2, a3);
#endif
        cp_mat3w_xlat(a0, a1, a2, a3);
#ifdef CP_MAT3W_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 254: { /* cp_mat3i_xlat */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); double a1 = rd(); double a2 = rd();
#ifdef CP_MAT3I_XLAT
        cp_mat3i_t w = CP_MAT3I_XLAT(a1, a2);
#endif
        cp_mat3i_xlat(a0, a1, a2);
#ifdef CP_MAT3I_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 255: { /* cp_mat3wi_xlat */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT3WI_XLAT
        cp_mat3wi_t w = CP_MAT3WI_XLAT(a1, a2, a3);
#endif
        cp_mat3wi_xlat(a0, a1, a2, a3);
#ifdef CP_MAT3WI_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 256: { /* cp_mat4_xlat */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT4_XLAT
        cp_mat4_t w = CP_MAT4_XLAT(a1, a2, a3);
#endif
        cp_mat4_xlat(a0, a1, a2, a3);
#ifdef CP_MAT4_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 257: { /* cp_mat4i_xlat */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); double a1 = rd(); double a2 = rd(); double a3 = rd();
#ifdef CP_MAT4I_XLAT
        cp_mat4i_t w = CP_MAT4I_XLAT(a1, a2, a3);
#endif
        cp_mat4i_xlat(a0, a1, a2, a3);
#ifdef CP_MAT4I_XLAT
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 258: { /* cp_mat2w_xlat_v */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2W_XLAT_V
        cp_mat2w_t w = CP_MAT2W_XLAT_V(a1);
#endif
        cp_mat2w_xlat_v(a0, a1);
#ifdef CP_MAT2W_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 259: { /* cp_mat2wi_xlat_v */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT2WI_XLAT_V
        cp_mat2wi_t w = CP_MAT2WI_XLAT_V(a1);
#endif
        cp_mat2wi_xlat_v(a0, a1);
#ifdef CP_MAT2WI_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 260: { /* cp_mat3_xlat_v */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3_XLAT_V
        cp_mat3_t w = CP_MAT3_XLAT_V(a1);
#endif
        cp_mat3_xlat_v(a0, a1);
#ifdef CP_MAT3_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 261: { /* cp_mat3w_xlat_v */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3W_XLAT_V
        cp_mat3w_t w = CP_MAT3W_XLAT_V(a1);
#endif
        cp_mat3w_xlat_v(a0, a1);
#ifdef CP_MAT3W_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 262: { /* cp_mat3i_xlat_v */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1);
#ifdef CP_MAT3I_XLAT_V
        cp_mat3i_t w = CP_MAT3I_XLAT_V(a1);
#endif
        cp_mat3i_xlat_v(a0, a1);
#ifdef CP_MAT3I_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 263: { /* cp_mat3wi_xlat_v */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT3WI_XLAT_V
        cp_mat3wi_t w = CP_MAT3WI_XLAT_V(a1);
#endif
        cp_mat3wi_xlat_v(a0, a1);
#ifdef CP_MAT3WI_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 264: { /* cp_mat4_xlat_v */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4_XLAT_V
        cp_mat4_t w = CP_MAT4_XLAT_V(a1);
#endif
        cp_mat4_xlat_v(a0, a1);
#ifdef CP_MAT4_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 265: { /* cp_mat4i_xlat_v */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1);
#ifdef CP_MAT4I_XLAT_V
        cp_mat4i_t w = CP_MAT4I_XLAT_V(a1);
#endif
        cp_mat4i_xlat_v(a0, a1);
#ifdef CP_MAT4I_XLAT_V
        if (memcmp(&w, a0, sizeof w)) { *a0 = w; }
#endif
        outd(a0, sizeof *a0); break; }
    case 266: { /* cp_mat2i_det */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); double r = cp_mat2i_det(a0); wd(r); break; }
    case 267: { /* cp_mat2wi_det */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); double r = cp_mat2wi_det(a0); wd(r); break; }
    case 268: { /* cp_mat3i_det */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); double r = cp_mat3i_det(a0); wd(r); break; }
    case 269: { /* cp_mat3wi_det */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); double r = cp_mat3wi_det(a0); wd(r); break; }
    case 270: { /* cp_mat4i_det */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); double r = cp_mat4i_det(a0); wd(r); break; }
    case 271: { /* cp_e_cmp */ double a0 = rd(); double a1 = rd(); double a2 = rd(); int r = cp_e_cmp(a0, a1, a2); wi32(r); break; }
    case 272: { /* cp_cmp */ double a0 = rd(); double a1 = rd(); int r = cp_cmp(a0, a1); wi32(r); break; }
    case 273: { /* cp_sqr_cmp */ double a0 = rd(); double a1 = rd(); int r = cp_sqr_cmp(a0, a1); wi32(r); break; }
    case 274: { /* cp_dim3_rot_unit */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_vec2_t *a4 = in(sizeof(cp_vec2_t), p, 4); cp_dim3_rot_unit(a0, a1, a2, a3, a4); outd(a0, sizeof *a0); outd(a1, sizeof *a1); outd(a2, sizeof *a2); break; }
    case 275: { /* cp_dim2_mirror_unit */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); cp_dim2_mirror_unit(a0, a1, a2); outd(a0, sizeof *a0); outd(a1, sizeof *a1); break; }
    case 276: { /* cp_dim3_mirror_unit */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_dim3_mirror_unit(a0, a1, a2, a3); outd(a0, sizeof *a0); outd(a1, sizeof *a1); outd(a2, sizeof *a2); break; }
    case 277: { /* cp_dim3_rot_unit_into_z */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_dim3_rot_unit_into_z(a0, a1, a2, a3); outd(a0, sizeof *a0); outd(a1, sizeof *a1); outd(a2, sizeof *a2); break; }
    case 278: { /* cp_vec3_cross */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_cross(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 279: { /* cp_vec3_right_cross3 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_vec3_right_cross3(a0, a1, a2, a3); outd(a0, sizeof *a0); break; }
    case 280: { /* cp_vec3_normal */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); int r = cp_vec3_normal(a0, a1, a2); wi32(r); outd(a0, sizeof *a0); break; }
    case 281: { /* cp_vec3_right_normal3 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); int r = cp_vec3_right_normal3(a0, a1, a2, a3); wi32(r); outd(a0, sizeof *a0); break; }
    case 282: { /* cp_mat4_det */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); double r = cp_mat4_det(a0); wd(r); break; }
    case 283: { /* cp_mat4_inv */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); double r = cp_mat4_inv(a0, a1); wd(r); outd(a0, sizeof *a0); break; }
    case 284: { /* cp_mat3_det */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); double r = cp_mat3_det(a0); wd(r); break; }
    case 285: { /* cp_mat3w_det */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); double r = cp_mat3w_det(a0); wd(r); break; }
    case 286: { /* cp_mat3_inv */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); double r = cp_mat3_inv(a0, a1); wd(r); outd(a0, sizeof *a0); break; }
    case 287: { /* cp_mat2_det */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); double r = cp_mat2_det(a0); wd(r); break; }
    case 288: { /* cp_mat2w_det */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); double r = cp_mat2w_det(a0); wd(r); break; }
    case 289: { /* cp_mat2_inv */ cp_mat2_t *a0 = in(sizeof(cp_mat2_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); double r = cp_mat2_inv(a0, a1); wd(r); outd(a0, sizeof *a0); break; }
    case 290: { /* cp_mat3w_inv */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); double r = cp_mat3w_inv(a0, a1); wd(r); outd(a0, sizeof *a0); break; }
    case 291: { /* cp_mat2w_inv */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); double r = cp_mat2w_inv(a0, a1); wd(r); outd(a0, sizeof *a0); break; }
    case 292: { /* cp_mat3w_from_mat4 */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); int r = cp_mat3w_from_mat4(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 293: { /* cp_mat2w_from_mat3 */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); int r = cp_mat2w_from_mat3(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 294: { /* cp_mat2w_from_mat3w */ cp_mat2w_t *a0 = in(sizeof(cp_mat2w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); int r = cp_mat2w_from_mat3w(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 295: { /* cp_mat4_from_mat3w */ cp_mat4_t *a0 = in(sizeof(cp_mat4_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); cp_mat4_from_mat3w(a0, a1); outd(a0, sizeof *a0); break; }
    case 296: { /* cp_mat3_from_mat2w */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); cp_mat3_from_mat2w(a0, a1); outd(a0, sizeof *a0); break; }
    case 297: { /* cp_mat3w_from_mat2w */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); cp_mat3w_from_mat2w(a0, a1); outd(a0, sizeof *a0); break; }
    case 298: { /* cp_mat3wi_from_mat4i */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat4i_t *a1 = in(sizeof(cp_mat4i_t), p, 1); int r = cp_mat3wi_from_mat4i(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 299: { /* cp_mat2wi_from_mat3i */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat3i_t *a1 = in(sizeof(cp_mat3i_t), p, 1); int r = cp_mat2wi_from_mat3i(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 300: { /* cp_mat2wi_from_mat3wi */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); int r = cp_mat2wi_from_mat3wi(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 301: { /* cp_mat4i_from_mat3wi */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat3wi_t *a1 = in(sizeof(cp_mat3wi_t), p, 1); cp_mat4i_from_mat3wi(a0, a1); outd(a0, sizeof *a0); break; }
    case 302: { /* cp_mat3i_from_mat2wi */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); cp_mat3i_from_mat2wi(a0, a1); outd(a0, sizeof *a0); break; }
    case 303: { /* cp_mat3wi_from_mat2wi */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat2wi_t *a1 = in(sizeof(cp_mat2wi_t), p, 1); cp_mat3wi_from_mat2wi(a0, a1); outd(a0, sizeof *a0); break; }
    case 304: { /* cp_mat2i_from_mat2 */ cp_mat2i_t *a0 = in(sizeof(cp_mat2i_t), p, 0); cp_mat2_t *a1 = in(sizeof(cp_mat2_t), p, 1); int r = cp_mat2i_from_mat2(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 305: { /* cp_mat3i_from_mat3 */ cp_mat3i_t *a0 = in(sizeof(cp_mat3i_t), p, 0); cp_mat3_t *a1 = in(sizeof(cp_mat3_t), p, 1); int r = cp_mat3i_from_mat3(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 306: { /* cp_mat4i_from_mat4 */ cp_mat4i_t *a0 = in(sizeof(cp_mat4i_t), p, 0); cp_mat4_t *a1 = in(sizeof(cp_mat4_t), p, 1); int r = cp_mat4i_from_mat4(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 307: { /* cp_mat2wi_from_mat2w */ cp_mat2wi_t *a0 = in(sizeof(cp_mat2wi_t), p, 0); cp_mat2w_t *a1 = in(sizeof(cp_mat2w_t), p, 1); int r = cp_mat2wi_from_mat2w(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 308: { /* cp_mat3wi_from_mat3w */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); int r = cp_mat3wi_from_mat3w(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 309: { /* cp_vec2_in_line */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); int r = cp_vec2_in_line(a0, a1, a2); wi32(r); break; }
    case 310: { /* cp_vec3_in_line */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); int r = cp_vec3_in_line(a0, a1, a2); wi32(r); break; }
    case 311: { /* cp_vec2_nearest */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); cp_vec2_t *a3 = in(sizeof(cp_vec2_t), p, 3); cp_vec2_nearest(a0, a1, a2, a3); outd(a0, sizeof *a0); break; }
    case 312: { /* cp_mat3w_xform_into_zx_2 */ cp_mat3w_t *a0 = in(sizeof(cp_mat3w_t), p, 0); cp_mat3w_t *a1 = in(sizeof(cp_mat3w_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_vec3_t *a4 = in(sizeof(cp_vec3_t), p, 4); int r = cp_mat3w_xform_into_zx_2(a0, a1, a2, a3, a4); wi32(r); outd(a0, sizeof *a0); outd(a1, sizeof *a1); break; }
    case 313: { /* cp_sin_deg */ double a0 = rd(); double r = cp_sin_deg(a0); wd(r); break; }
    case 314: { /* cp_cos_deg */ double a0 = rd(); double r = cp_cos_deg(a0); wd(r); break; }
    case 315: { /* cp_vec2_angle */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double r = cp_vec2_angle(a0, a1); wd(r); break; }
    case 316: { /* cp_vec2_angle3 */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); double r = cp_vec2_angle3(a0, a1, a2); wd(r); break; }
    case 317: { /* cp_mat3wi_xform_into_zx */ cp_mat3wi_t *a0 = in(sizeof(cp_mat3wi_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); int r = cp_mat3wi_xform_into_zx(a0, a1, a2, a3); wi32(r); outd(a0, sizeof *a0); break; }
    case 318: { /* cp_vec2_port */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); cp_vec2_port(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 319: { /* cp_div0 */ double a0 = rd(); double a1 = rd(); double r = cp_div0(a0, a1); wd(r); break; }
    case 320: { /* cp_t01 */ double a0 = rd(); double a1 = rd(); double a2 = rd(); double r = cp_t01(a0, a1, a2); wd(r); break; }
    case 321: { /* cp_t_pm */ double a0 = rd(); double a1 = rd(); double a2 = rd(); double r = cp_t_pm(a0, a1, a2); wd(r); break; }
    case 322: { /* cp_tan_deg */ double a0 = rd(); double r = cp_tan_deg(a0); wd(r); break; }
    case 323: { /* cp_vec2_normal */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); cp_vec2_normal(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 324: { /* cp_cross_z */ double a0 = rd(); double a1 = rd(); double a2 = rd(); double a3 = rd(); double r = cp_cross_z(a0, a1, a2, a3); wd(r); break; }
    case 325: { /* cp_normal_z */ double a0 = rd(); double a1 = rd(); double a2 = rd(); double a3 = rd(); int r = cp_normal_z(a0, a1, a2, a3); wi32(r); break; }
    case 326: { /* cp_vec2_cross_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); double r = cp_vec2_cross_z(a0, a1); wd(r); break; }
    case 327: { /* cp_vec2_normal_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); int r = cp_vec2_normal_z(a0, a1); wi32(r); break; }
    case 328: { /* cp_vec2_right_cross3_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); double r = cp_vec2_right_cross3_z(a0, a1, a2); wd(r); break; }
    case 329: { /* cp_vec2_left_cross3_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); double r = cp_vec2_left_cross3_z(a0, a1, a2); wd(r); break; }
    case 330: { /* cp_vec2_right_normal3_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); int r = cp_vec2_right_normal3_z(a0, a1, a2); wi32(r); break; }
    case 331: { /* cp_vec2_left_normal3_z */ cp_vec2_t *a0 = in(sizeof(cp_vec2_t), p, 0); cp_vec2_t *a1 = in(sizeof(cp_vec2_t), p, 1); cp_vec2_t *a2 = in(sizeof(cp_vec2_t), p, 2); int r = cp_vec2_left_normal3_z(a0, a1, a2); wi32(r); break; }
    case 332: { /* cp_vec3_left_cross3 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); cp_vec3_left_cross3(a0, a1, a2, a3); outd(a0, sizeof *a0); break; }
    case 333: { /* cp_vec3_left_normal3 */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); int r = cp_vec3_left_normal3(a0, a1, a2, a3); wi32(r); outd(a0, sizeof *a0); break; }
    case 334: { /* cp_vec3_div_x */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); double a2 = rd(); cp_vec3_div_x(a0, a1, a2); outd(a0, sizeof *a0); break; }
    case 335: { /* cp_vec3_unit_x */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); int r = cp_vec3_unit_x(a0, a1); wi32(r); outd(a0, sizeof *a0); break; }
    case 336: { /* cp_vec3_normal_x */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); int r = cp_vec3_normal_x(a0, a1, a2); wi32(r); outd(a0, sizeof *a0); break; }
    case 337: { /* cp_vec3_right_normal3_x */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); int r = cp_vec3_right_normal3_x(a0, a1, a2, a3); wi32(r); outd(a0, sizeof *a0); break; }
    case 338: { /* cp_vec3_left_normal3_x */ cp_vec3_t *a0 = in(sizeof(cp_vec3_t), p, 0); cp_vec3_t *a1 = in(sizeof(cp_vec3_t), p, 1); cp_vec3_t *a2 = in(sizeof(cp_vec3_t), p, 2); cp_vec3_t *a3 = in(sizeof(cp_vec3_t), p, 3); int r = cp_vec3_left_normal3_x(a0, a1, a2, a3); wi32(r); outd(a0, sizeof *a0); break; }
    case 339: { /* cp_mat3_is_rect_rot */ cp_mat3_t *a0 = in(sizeof(cp_mat3_t), p, 0); int r = cp_mat3_is_rect_rot(a0); wi32(r); break; }
