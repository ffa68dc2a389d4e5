"""Generated by tools/mkmatshim.py: the functions of the matrix library."""
SIZE = {'vec2': 2, 'mat2': 4, 'mat2i': 9, 'vec2_minmax': 4, 'vec3': 3, 'mat3': 9, 'mat3i': 19, 'vec3_minmax': 6, 'vec4': 4, 'mat4': 16, 'mat4i': 33, 'vec4_minmax': 8, 'mat2w': 6, 'mat2wi': 13, 'mat3w': 12, 'mat3wi': 25}
FN = {
    'cp_vec2_rev': (0, 'v', [('vec2', True), ('vec2', False)]),
    'cp_vec3_rev': (1, 'v', [('vec3', True), ('vec3', False)]),
    'cp_vec4_rev': (2, 'v', [('vec4', True), ('vec4', False)]),
    'cp_vec2_divc': (3, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_divc': (4, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_divc': (5, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_div': (6, 'v', [('vec2', True), ('vec2', False), ('d', False)]),
    'cp_vec3_div': (7, 'v', [('vec3', True), ('vec3', False), ('d', False)]),
    'cp_vec4_div': (8, 'v', [('vec4', True), ('vec4', False), ('d', False)]),
    'cp_vec2_min': (9, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_min': (10, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_min': (11, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_max': (12, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_max': (13, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_max': (14, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_minmax': (15, 'v', [('vec2_minmax', True), ('vec2', False)]),
    'cp_vec3_minmax': (16, 'v', [('vec3_minmax', True), ('vec3', False)]),
    'cp_vec4_minmax': (17, 'v', [('vec4_minmax', True), ('vec4', False)]),
    'cp_vec2_minmax_or': (18, 'v', [('vec2_minmax', True), ('vec2_minmax', False), ('vec2_minmax', False)]),
    'cp_vec3_minmax_or': (19, 'v', [('vec3_minmax', True), ('vec3_minmax', False), ('vec3_minmax', False)]),
    'cp_vec4_minmax_or': (20, 'v', [('vec4_minmax', True), ('vec4_minmax', False), ('vec4_minmax', False)]),
    'cp_vec2_minmax_and': (21, 'v', [('vec2_minmax', True), ('vec2_minmax', False), ('vec2_minmax', False)]),
    'cp_vec3_minmax_and': (22, 'v', [('vec3_minmax', True), ('vec3_minmax', False), ('vec3_minmax', False)]),
    'cp_vec4_minmax_and': (23, 'v', [('vec4_minmax', True), ('vec4_minmax', False), ('vec4_minmax', False)]),
    'cp_vec2_minmax_valid': (24, 'b', [('vec2_minmax', False)]),
    'cp_vec3_minmax_valid': (25, 'b', [('vec3_minmax', False)]),
    'cp_vec4_minmax_valid': (26, 'b', [('vec4_minmax', False)]),
    'cp_vec2_max_abs_coord': (27, 'd', [('vec2', False)]),
    'cp_vec3_max_abs_coord': (28, 'd', [('vec3', False)]),
    'cp_vec4_max_abs_coord': (29, 'd', [('vec4', False)]),
    'cp_vec2_has_len0': (30, 'b', [('vec2', False)]),
    'cp_vec3_has_len0': (31, 'b', [('vec3', False)]),
    'cp_vec4_has_len0': (32, 'b', [('vec4', False)]),
    'cp_vec2_unit': (33, 'b', [('vec2', True), ('vec2', False)]),
    'cp_vec3_unit': (34, 'b', [('vec3', True), ('vec3', False)]),
    'cp_vec4_unit': (35, 'b', [('vec4', True), ('vec4', False)]),
    'cp_vec2_lerp': (36, 'v', [('vec2', True), ('vec2', False), ('vec2', False), ('d', False)]),
    'cp_vec3_lerp': (37, 'v', [('vec3', True), ('vec3', False), ('vec3', False), ('d', False)]),
    'cp_vec4_lerp': (38, 'v', [('vec4', True), ('vec4', False), ('vec4', False), ('d', False)]),
    'cp_vec2_xform': (39, 'v', [('vec2', True), ('mat2', False), ('vec2', False)]),
    'cp_vec2w_xform': (40, 'v', [('vec2', True), ('mat2w', False), ('vec2', False)]),
    'cp_vec3_xform': (41, 'v', [('vec3', True), ('mat3', False), ('vec3', False)]),
    'cp_vec3w_xform': (42, 'v', [('vec3', True), ('mat3w', False), ('vec3', False)]),
    'cp_vec4_xform': (43, 'v', [('vec4', True), ('mat4', False), ('vec4', False)]),
    'cp_mat2i_scale': (44, 'v', [('mat2i', True), ('d', False), ('d', False)]),
    'cp_mat2wi_scale': (45, 'v', [('mat2wi', True), ('d', False), ('d', False)]),
    'cp_mat3i_scale': (46, 'v', [('mat3i', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat3wi_scale': (47, 'v', [('mat3wi', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat4i_scale': (48, 'v', [('mat4i', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat2_trans': (49, 'v', [('mat2', True), ('mat2', False)]),
    'cp_mat2w_trans': (50, 'b', [('mat2w', True), ('mat2w', False)]),
    'cp_mat2i_trans': (51, 'v', [('mat2i', True), ('mat2i', False)]),
    'cp_mat2wi_trans': (52, 'b', [('mat2wi', True), ('mat2wi', False)]),
    'cp_mat3_trans': (53, 'v', [('mat3', True), ('mat3', False)]),
    'cp_mat3w_trans': (54, 'b', [('mat3w', True), ('mat3w', False)]),
    'cp_mat3i_trans': (55, 'v', [('mat3i', True), ('mat3i', False)]),
    'cp_mat3wi_trans': (56, 'b', [('mat3wi', True), ('mat3wi', False)]),
    'cp_mat4_trans': (57, 'v', [('mat4', True), ('mat4', False)]),
    'cp_mat4i_trans': (58, 'v', [('mat4i', True), ('mat4i', False)]),
    'cp_mat3i_rot_unit': (59, 'v', [('mat3i', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3wi_rot_unit': (60, 'v', [('mat3wi', True), ('vec3', False), ('vec2', False)]),
    'cp_mat4i_rot_unit': (61, 'v', [('mat4i', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3i_rot_unit_into_z': (62, 'v', [('mat3i', True), ('vec3', False)]),
    'cp_mat3wi_rot_unit_into_z': (63, 'v', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4i_rot_unit_into_z': (64, 'v', [('mat4i', True), ('vec3', False)]),
    'cp_mat3_rot_into_z': (65, 'b', [('mat3', True), ('vec3', False)]),
    'cp_mat3w_rot_into_z': (66, 'b', [('mat3w', True), ('vec3', False)]),
    'cp_mat3i_rot_into_z': (67, 'b', [('mat3i', True), ('vec3', False)]),
    'cp_mat3wi_rot_into_z': (68, 'b', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4_rot_into_z': (69, 'b', [('mat4', True), ('vec3', False)]),
    'cp_mat4i_rot_into_z': (70, 'b', [('mat4i', True), ('vec3', False)]),
    'cp_mat2_rot_ij': (71, 'v', [('mat2', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat2i_rot_ij': (72, 'v', [('mat2i', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat2wi_rot_ij': (73, 'v', [('mat2wi', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3_rot_ij': (74, 'v', [('mat3', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3i_rot_ij': (75, 'v', [('mat3i', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3wi_rot_ij': (76, 'v', [('mat3wi', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat4_rot_ij': (77, 'v', [('mat4', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat4i_rot_ij': (78, 'v', [('mat4i', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3i_rot_x': (79, 'v', [('mat3i', True), ('vec2', False)]),
    'cp_mat3wi_rot_x': (80, 'v', [('mat3wi', True), ('vec2', False)]),
    'cp_mat4i_rot_x': (81, 'v', [('mat4i', True), ('vec2', False)]),
    'cp_mat3i_rot_y': (82, 'v', [('mat3i', True), ('vec2', False)]),
    'cp_mat3wi_rot_y': (83, 'v', [('mat3wi', True), ('vec2', False)]),
    'cp_mat4i_rot_y': (84, 'v', [('mat4i', True), ('vec2', False)]),
    'cp_mat2i_rot': (85, 'v', [('mat2i', True), ('vec2', False)]),
    'cp_mat2wi_rot': (86, 'v', [('mat2wi', True), ('vec2', False)]),
    'cp_mat3i_rot_z': (87, 'v', [('mat3i', True), ('vec2', False)]),
    'cp_mat3wi_rot_z': (88, 'v', [('mat3wi', True), ('vec2', False)]),
    'cp_mat4i_rot_z': (89, 'v', [('mat4i', True), ('vec2', False)]),
    'cp_mat2i_mirror_unit': (90, 'v', [('mat2i', True), ('vec2', False)]),
    'cp_mat2wi_mirror_unit': (91, 'v', [('mat2wi', True), ('vec2', False)]),
    'cp_mat3i_mirror_unit': (92, 'v', [('mat3i', True), ('vec3', False)]),
    'cp_mat3wi_mirror_unit': (93, 'v', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4i_mirror_unit': (94, 'v', [('mat4i', True), ('vec3', False)]),
    'cp_mat2_mul': (95, 'v', [('mat2', True), ('mat2', False), ('mat2', False)]),
    'cp_mat2w_mul': (96, 'v', [('mat2w', True), ('mat2w', False), ('mat2w', False)]),
    'cp_mat2i_mul': (97, 'v', [('mat2i', True), ('mat2i', False), ('mat2i', False)]),
    'cp_mat2wi_mul': (98, 'v', [('mat2wi', True), ('mat2wi', False), ('mat2wi', False)]),
    'cp_mat3_mul': (99, 'v', [('mat3', True), ('mat3', False), ('mat3', False)]),
    'cp_mat3w_mul': (100, 'v', [('mat3w', True), ('mat3w', False), ('mat3w', False)]),
    'cp_mat3i_mul': (101, 'v', [('mat3i', True), ('mat3i', False), ('mat3i', False)]),
    'cp_mat3wi_mul': (102, 'v', [('mat3wi', True), ('mat3wi', False), ('mat3wi', False)]),
    'cp_mat4_mul': (103, 'v', [('mat4', True), ('mat4', False), ('mat4', False)]),
    'cp_mat4i_mul': (104, 'v', [('mat4i', True), ('mat4i', False), ('mat4i', False)]),
    'cp_mat2i_inv': (105, 'v', [('mat2i', True), ('mat2i', False)]),
    'cp_mat2wi_inv': (106, 'v', [('mat2wi', True), ('mat2wi', False)]),
    'cp_mat3i_inv': (107, 'v', [('mat3i', True), ('mat3i', False)]),
    'cp_mat3wi_inv': (108, 'v', [('mat3wi', True), ('mat3wi', False)]),
    'cp_mat4i_inv': (109, 'v', [('mat4i', True), ('mat4i', False)]),
    'cp_vec2_lex_cmp': (110, 'i', [('vec2', False), ('vec2', False)]),
    'cp_vec3_lex_cmp': (111, 'i', [('vec3', False), ('vec3', False)]),
    'cp_vec4_lex_cmp': (112, 'i', [('vec4', False), ('vec4', False)]),
    'cp_mat2_lex_cmp': (113, 'i', [('mat2', False), ('mat2', False)]),
    'cp_mat2w_lex_cmp': (114, 'i', [('mat2w', False), ('mat2w', False)]),
    'cp_mat2i_lex_cmp': (115, 'i', [('mat2i', False), ('mat2i', False)]),
    'cp_mat2wi_lex_cmp': (116, 'i', [('mat2wi', False), ('mat2wi', False)]),
    'cp_mat3_lex_cmp': (117, 'i', [('mat3', False), ('mat3', False)]),
    'cp_mat3w_lex_cmp': (118, 'i', [('mat3w', False), ('mat3w', False)]),
    'cp_mat3i_lex_cmp': (119, 'i', [('mat3i', False), ('mat3i', False)]),
    'cp_mat3wi_lex_cmp': (120, 'i', [('mat3wi', False), ('mat3wi', False)]),
    'cp_mat4_lex_cmp': (121, 'i', [('mat4', False), ('mat4', False)]),
    'cp_mat4i_lex_cmp': (122, 'i', [('mat4i', False), ('mat4i', False)]),
    'cp_vec2_eq': (123, 'b', [('vec2', False), ('vec2', False)]),
    'cp_vec3_eq': (124, 'b', [('vec3', False), ('vec3', False)]),
    'cp_vec4_eq': (125, 'b', [('vec4', False), ('vec4', False)]),
    'cp_mat2_eq': (126, 'b', [('mat2', False), ('mat2', False)]),
    'cp_mat2w_eq': (127, 'b', [('mat2w', False), ('mat2w', False)]),
    'cp_mat2i_eq': (128, 'b', [('mat2i', False), ('mat2i', False)]),
    'cp_mat2wi_eq': (129, 'b', [('mat2wi', False), ('mat2wi', False)]),
    'cp_mat3_eq': (130, 'b', [('mat3', False), ('mat3', False)]),
    'cp_mat3w_eq': (131, 'b', [('mat3w', False), ('mat3w', False)]),
    'cp_mat3i_eq': (132, 'b', [('mat3i', False), ('mat3i', False)]),
    'cp_mat3wi_eq': (133, 'b', [('mat3wi', False), ('mat3wi', False)]),
    'cp_mat4_eq': (134, 'b', [('mat4', False), ('mat4', False)]),
    'cp_mat4i_eq': (135, 'b', [('mat4i', False), ('mat4i', False)]),
    'cp_vec2_add': (136, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_add': (137, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_add': (138, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_neg': (139, 'v', [('vec2', True), ('vec2', False)]),
    'cp_vec3_neg': (140, 'v', [('vec3', True), ('vec3', False)]),
    'cp_vec4_neg': (141, 'v', [('vec4', True), ('vec4', False)]),
    'cp_vec2_sub': (142, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_sub': (143, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_sub': (144, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_mulc': (145, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_mulc': (146, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_mulc': (147, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_vec2_mul': (148, 'v', [('vec2', True), ('vec2', False), ('d', False)]),
    'cp_vec3_mul': (149, 'v', [('vec3', True), ('vec3', False), ('d', False)]),
    'cp_vec4_mul': (150, 'v', [('vec4', True), ('vec4', False), ('d', False)]),
    'cp_vec2_dot': (151, 'd', [('vec2', False), ('vec2', False)]),
    'cp_vec3_dot': (152, 'd', [('vec3', False), ('vec3', False)]),
    'cp_vec4_dot': (153, 'd', [('vec4', False), ('vec4', False)]),
    'cp_vec2_sqr_len': (154, 'd', [('vec2', False)]),
    'cp_vec3_sqr_len': (155, 'd', [('vec3', False)]),
    'cp_vec4_sqr_len': (156, 'd', [('vec4', False)]),
    'cp_vec2_len': (157, 'd', [('vec2', False)]),
    'cp_vec3_len': (158, 'd', [('vec3', False)]),
    'cp_vec4_len': (159, 'd', [('vec4', False)]),
    'cp_vec2_has_len1': (160, 'b', [('vec2', False)]),
    'cp_vec3_has_len1': (161, 'b', [('vec3', False)]),
    'cp_vec4_has_len1': (162, 'b', [('vec4', False)]),
    'cp_vec2_has_len0_or_1': (163, 'b', [('vec2', False)]),
    'cp_vec3_has_len0_or_1': (164, 'b', [('vec3', False)]),
    'cp_vec4_has_len0_or_1': (165, 'b', [('vec4', False)]),
    'cp_vec2_sqr_dist': (166, 'd', [('vec2', False), ('vec2', False)]),
    'cp_vec3_sqr_dist': (167, 'd', [('vec3', False), ('vec3', False)]),
    'cp_vec4_sqr_dist': (168, 'd', [('vec4', False), ('vec4', False)]),
    'cp_vec2_dist': (169, 'd', [('vec2', False), ('vec2', False)]),
    'cp_vec3_dist': (170, 'd', [('vec3', False), ('vec3', False)]),
    'cp_vec4_dist': (171, 'd', [('vec4', False), ('vec4', False)]),
    'cp_vec2_dir': (172, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_vec3_dir': (173, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec4_dir': (174, 'v', [('vec4', True), ('vec4', False), ('vec4', False)]),
    'cp_mat2_scale': (175, 'v', [('mat2', True), ('d', False), ('d', False)]),
    'cp_mat2w_scale': (176, 'v', [('mat2w', True), ('d', False), ('d', False)]),
    'cp_mat3_scale': (177, 'v', [('mat3', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat3w_scale': (178, 'v', [('mat3w', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat4_scale': (179, 'v', [('mat4', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat2_scale1': (180, 'v', [('mat2', True), ('d', False)]),
    'cp_mat2w_scale1': (181, 'v', [('mat2w', True), ('d', False)]),
    'cp_mat2i_scale1': (182, 'v', [('mat2i', True), ('d', False)]),
    'cp_mat2wi_scale1': (183, 'v', [('mat2wi', True), ('d', False)]),
    'cp_mat3_scale1': (184, 'v', [('mat3', True), ('d', False)]),
    'cp_mat3w_scale1': (185, 'v', [('mat3w', True), ('d', False)]),
    'cp_mat3i_scale1': (186, 'v', [('mat3i', True), ('d', False)]),
    'cp_mat3wi_scale1': (187, 'v', [('mat3wi', True), ('d', False)]),
    'cp_mat4_scale1': (188, 'v', [('mat4', True), ('d', False)]),
    'cp_mat4i_scale1': (189, 'v', [('mat4i', True), ('d', False)]),
    'cp_mat2_scale_v': (190, 'v', [('mat2', True), ('vec2', False)]),
    'cp_mat2w_scale_v': (191, 'v', [('mat2w', True), ('vec2', False)]),
    'cp_mat2i_scale_v': (192, 'v', [('mat2i', True), ('vec2', False)]),
    'cp_mat2wi_scale_v': (193, 'v', [('mat2wi', True), ('vec2', False)]),
    'cp_mat3_scale_v': (194, 'v', [('mat3', True), ('vec3', False)]),
    'cp_mat3w_scale_v': (195, 'v', [('mat3w', True), ('vec3', False)]),
    'cp_mat3i_scale_v': (196, 'v', [('mat3i', True), ('vec3', False)]),
    'cp_mat3wi_scale_v': (197, 'v', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4_scale_v': (198, 'v', [('mat4', True), ('vec3', False)]),
    'cp_mat4i_scale_v': (199, 'v', [('mat4i', True), ('vec3', False)]),
    'cp_mat2_unit': (200, 'v', [('mat2', True)]),
    'cp_mat2w_unit': (201, 'v', [('mat2w', True)]),
    'cp_mat2i_unit': (202, 'v', [('mat2i', True)]),
    'cp_mat2wi_unit': (203, 'v', [('mat2wi', True)]),
    'cp_mat3_unit': (204, 'v', [('mat3', True)]),
    'cp_mat3w_unit': (205, 'v', [('mat3w', True)]),
    'cp_mat3i_unit': (206, 'v', [('mat3i', True)]),
    'cp_mat3wi_unit': (207, 'v', [('mat3wi', True)]),
    'cp_mat4_unit': (208, 'v', [('mat4', True)]),
    'cp_mat4i_unit': (209, 'v', [('mat4i', True)]),
    'cp_mat3_rot_unit': (210, 'v', [('mat3', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3w_rot_unit': (211, 'v', [('mat3w', True), ('vec3', False), ('vec2', False)]),
    'cp_mat4_rot_unit': (212, 'v', [('mat4', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3_rot_v': (213, 'v', [('mat3', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3w_rot_v': (214, 'v', [('mat3w', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3i_rot_v': (215, 'v', [('mat3i', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3wi_rot_v': (216, 'v', [('mat3wi', True), ('vec3', False), ('vec2', False)]),
    'cp_mat4_rot_v': (217, 'v', [('mat4', True), ('vec3', False), ('vec2', False)]),
    'cp_mat4i_rot_v': (218, 'v', [('mat4i', True), ('vec3', False), ('vec2', False)]),
    'cp_mat3_rot_unit_into_z': (219, 'v', [('mat3', True), ('vec3', False)]),
    'cp_mat3w_rot_unit_into_z': (220, 'v', [('mat3w', True), ('vec3', False)]),
    'cp_mat4_rot_unit_into_z': (221, 'v', [('mat4', True), ('vec3', False)]),
    'cp_mat2w_rot_ij': (222, 'v', [('mat2w', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3w_rot_ij': (223, 'v', [('mat3w', True), ('z', False), ('z', False), ('vec2', False)]),
    'cp_mat3_rot_x': (224, 'v', [('mat3', True), ('vec2', False)]),
    'cp_mat3w_rot_x': (225, 'v', [('mat3w', True), ('vec2', False)]),
    'cp_mat4_rot_x': (226, 'v', [('mat4', True), ('vec2', False)]),
    'cp_mat3_rot_y': (227, 'v', [('mat3', True), ('vec2', False)]),
    'cp_mat3w_rot_y': (228, 'v', [('mat3w', True), ('vec2', False)]),
    'cp_mat4_rot_y': (229, 'v', [('mat4', True), ('vec2', False)]),
    'cp_mat2_rot': (230, 'v', [('mat2', True), ('vec2', False)]),
    'cp_mat2w_rot': (231, 'v', [('mat2w', True), ('vec2', False)]),
    'cp_mat3_rot_z': (232, 'v', [('mat3', True), ('vec2', False)]),
    'cp_mat3w_rot_z': (233, 'v', [('mat3w', True), ('vec2', False)]),
    'cp_mat4_rot_z': (234, 'v', [('mat4', True), ('vec2', False)]),
    'cp_mat2_mirror_unit': (235, 'v', [('mat2', True), ('vec2', False)]),
    'cp_mat2w_mirror_unit': (236, 'v', [('mat2w', True), ('vec2', False)]),
    'cp_mat3_mirror_unit': (237, 'v', [('mat3', True), ('vec3', False)]),
    'cp_mat3w_mirror_unit': (238, 'v', [('mat3w', True), ('vec3', False)]),
    'cp_mat4_mirror_unit': (239, 'v', [('mat4', True), ('vec3', False)]),
    'cp_mat2_mirror_v': (240, 'v', [('mat2', True), ('vec2', False)]),
    'cp_mat2w_mirror_v': (241, 'v', [('mat2w', True), ('vec2', False)]),
    'cp_mat2i_mirror_v': (242, 'v', [('mat2i', True), ('vec2', False)]),
    'cp_mat2wi_mirror_v': (243, 'v', [('mat2wi', True), ('vec2', False)]),
    'cp_mat3_mirror_v': (244, 'v', [('mat3', True), ('vec3', False)]),
    'cp_mat3w_mirror_v': (245, 'v', [('mat3w', True), ('vec3', False)]),
    'cp_mat3i_mirror_v': (246, 'v', [('mat3i', True), ('vec3', False)]),
    'cp_mat3wi_mirror_v': (247, 'v', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4_mirror_v': (248, 'v', [('mat4', True), ('vec3', False)]),
    'cp_mat4i_mirror_v': (249, 'v', [('mat4i', True), ('vec3', False)]),
    'cp_mat2w_xlat': (250, 'v', [('mat2w', True), ('d', False), ('d', False)]),
    'cp_mat2wi_xlat': (251, 'v', [('mat2wi', True), ('d', False), ('d', False)]),
    'cp_mat3_xlat': (252, 'v', [('mat3', True), ('d', False), ('d', False)]),
    'cp_mat3w_xlat': (253, 'v', [('mat3w', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat3i_xlat': (254, 'v', [('mat3i', True), ('d', False), ('d', False)]),
    'cp_mat3wi_xlat': (255, 'v', [('mat3wi', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat4_xlat': (256, 'v', [('mat4', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat4i_xlat': (257, 'v', [('mat4i', True), ('d', False), ('d', False), ('d', False)]),
    'cp_mat2w_xlat_v': (258, 'v', [('mat2w', True), ('vec2', False)]),
    'cp_mat2wi_xlat_v': (259, 'v', [('mat2wi', True), ('vec2', False)]),
    'cp_mat3_xlat_v': (260, 'v', [('mat3', True), ('vec2', False)]),
    'cp_mat3w_xlat_v': (261, 'v', [('mat3w', True), ('vec3', False)]),
    'cp_mat3i_xlat_v': (262, 'v', [('mat3i', True), ('vec2', False)]),
    'cp_mat3wi_xlat_v': (263, 'v', [('mat3wi', True), ('vec3', False)]),
    'cp_mat4_xlat_v': (264, 'v', [('mat4', True), ('vec3', False)]),
    'cp_mat4i_xlat_v': (265, 'v', [('mat4i', True), ('vec3', False)]),
    'cp_mat2i_det': (266, 'd', [('mat2i', False)]),
    'cp_mat2wi_det': (267, 'd', [('mat2wi', False)]),
    'cp_mat3i_det': (268, 'd', [('mat3i', False)]),
    'cp_mat3wi_det': (269, 'd', [('mat3wi', False)]),
    'cp_mat4i_det': (270, 'd', [('mat4i', False)]),
    'cp_e_cmp': (271, 'i', [('d', False), ('d', False), ('d', False)]),
    'cp_cmp': (272, 'i', [('d', False), ('d', False)]),
    'cp_sqr_cmp': (273, 'i', [('d', False), ('d', False)]),
    'cp_dim3_rot_unit': (274, 'v', [('vec3', True), ('vec3', True), ('vec3', True), ('vec3', False), ('vec2', False)]),
    'cp_dim2_mirror_unit': (275, 'v', [('vec2', True), ('vec2', True), ('vec2', False)]),
    'cp_dim3_mirror_unit': (276, 'v', [('vec3', True), ('vec3', True), ('vec3', True), ('vec3', False)]),
    'cp_dim3_rot_unit_into_z': (277, 'v', [('vec3', True), ('vec3', True), ('vec3', True), ('vec3', False)]),
    'cp_vec3_cross': (278, 'v', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec3_right_cross3': (279, 'v', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec3_normal': (280, 'b', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec3_right_normal3': (281, 'b', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_mat4_det': (282, 'd', [('mat4', False)]),
    'cp_mat4_inv': (283, 'd', [('mat4', True), ('mat4', False)]),
    'cp_mat3_det': (284, 'd', [('mat3', False)]),
    'cp_mat3w_det': (285, 'd', [('mat3w', False)]),
    'cp_mat3_inv': (286, 'd', [('mat3', True), ('mat3', False)]),
    'cp_mat2_det': (287, 'd', [('mat2', False)]),
    'cp_mat2w_det': (288, 'd', [('mat2w', False)]),
    'cp_mat2_inv': (289, 'd', [('mat2', True), ('mat2', False)]),
    'cp_mat3w_inv': (290, 'd', [('mat3w', True), ('mat3w', False)]),
    'cp_mat2w_inv': (291, 'd', [('mat2w', True), ('mat2w', False)]),
    'cp_mat3w_from_mat4': (292, 'b', [('mat3w', True), ('mat4', False)]),
    'cp_mat2w_from_mat3': (293, 'b', [('mat2w', True), ('mat3', False)]),
    'cp_mat2w_from_mat3w': (294, 'b', [('mat2w', True), ('mat3w', False)]),
    'cp_mat4_from_mat3w': (295, 'v', [('mat4', True), ('mat3w', False)]),
    'cp_mat3_from_mat2w': (296, 'v', [('mat3', True), ('mat2w', False)]),
    'cp_mat3w_from_mat2w': (297, 'v', [('mat3w', True), ('mat2w', False)]),
    'cp_mat3wi_from_mat4i': (298, 'b', [('mat3wi', True), ('mat4i', False)]),
    'cp_mat2wi_from_mat3i': (299, 'b', [('mat2wi', True), ('mat3i', False)]),
    'cp_mat2wi_from_mat3wi': (300, 'b', [('mat2wi', True), ('mat3wi', False)]),
    'cp_mat4i_from_mat3wi': (301, 'v', [('mat4i', True), ('mat3wi', False)]),
    'cp_mat3i_from_mat2wi': (302, 'v', [('mat3i', True), ('mat2wi', False)]),
    'cp_mat3wi_from_mat2wi': (303, 'v', [('mat3wi', True), ('mat2wi', False)]),
    'cp_mat2i_from_mat2': (304, 'b', [('mat2i', True), ('mat2', False)]),
    'cp_mat3i_from_mat3': (305, 'b', [('mat3i', True), ('mat3', False)]),
    'cp_mat4i_from_mat4': (306, 'b', [('mat4i', True), ('mat4', False)]),
    'cp_mat2wi_from_mat2w': (307, 'b', [('mat2wi', True), ('mat2w', False)]),
    'cp_mat3wi_from_mat3w': (308, 'b', [('mat3wi', True), ('mat3w', False)]),
    'cp_vec2_in_line': (309, 'b', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_vec3_in_line': (310, 'b', [('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec2_nearest': (311, 'v', [('vec2', True), ('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_mat3w_xform_into_zx_2': (312, 'b', [('mat3w', True), ('mat3w', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_sin_deg': (313, 'd', [('d', False)]),
    'cp_cos_deg': (314, 'd', [('d', False)]),
    'cp_vec2_angle': (315, 'd', [('vec2', False), ('vec2', False)]),
    'cp_vec2_angle3': (316, 'd', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_mat3wi_xform_into_zx': (317, 'b', [('mat3wi', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec2_port': (318, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_div0': (319, 'd', [('d', False), ('d', False)]),
    'cp_t01': (320, 'd', [('d', False), ('d', False), ('d', False)]),
    'cp_t_pm': (321, 'd', [('d', False), ('d', False), ('d', False)]),
    'cp_tan_deg': (322, 'd', [('d', False)]),
    'cp_vec2_normal': (323, 'v', [('vec2', True), ('vec2', False), ('vec2', False)]),
    'cp_cross_z': (324, 'd', [('d', False), ('d', False), ('d', False), ('d', False)]),
    'cp_normal_z': (325, 'i', [('d', False), ('d', False), ('d', False), ('d', False)]),
    'cp_vec2_cross_z': (326, 'd', [('vec2', False), ('vec2', False)]),
    'cp_vec2_normal_z': (327, 'i', [('vec2', False), ('vec2', False)]),
    'cp_vec2_right_cross3_z': (328, 'd', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_vec2_left_cross3_z': (329, 'd', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_vec2_right_normal3_z': (330, 'i', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_vec2_left_normal3_z': (331, 'i', [('vec2', False), ('vec2', False), ('vec2', False)]),
    'cp_vec3_left_cross3': (332, 'v', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec3_left_normal3': (333, 'b', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec3_div_x': (334, 'v', [('vec3', True), ('vec3', False), ('d', False)]),
    'cp_vec3_unit_x': (335, 'b', [('vec3', True), ('vec3', False)]),
    'cp_vec3_normal_x': (336, 'b', [('vec3', True), ('vec3', False), ('vec3', False)]),
    'cp_vec3_right_normal3_x': (337, 'b', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_vec3_left_normal3_x': (338, 'b', [('vec3', True), ('vec3', False), ('vec3', False), ('vec3', False)]),
    'cp_mat3_is_rect_rot': (339, 'b', [('mat3', False)]),
}
