"""Which harness configurations decide which property.

A shape is five numbers: PAD fixed bytes, then MIN to MAX arbitrary bytes, then TAIL fixed bytes
make a key; the last number is the length of a value (its first two bytes are arbitrary)."""
SHAPES = 'keys: fixed padding of the stated sizes around up to 2 (thorough: 3) arbitrary bytes; values: up to 2 arbitrary bytes, lengths 0, 1, 2, 7, 8, 9, 127, 128, 129, 255, 256, 300'
S = ' 0 0 2 0 1'          # short keys
S1 = ' 0 0 1 0 1'
W8 = ' 6 0 1 2 8'         # keys around the sizes stored inline
W = ' 0 0 1 130 130'      # prefixes and values that go to a block of their own
B = ' 127 0 1 0 128'
V = ' 0 0 2 0 130'        # short keys, values in blocks
# deep trees: a fixed branching of 2 and as many levels as the third number is over 100
D2 = ' 0 2 102 0 1'
D3 = ' 0 2 103 0 1'
D4 = ' 0 2 104 0 1'
DW = ' 0 3 102 0 1'
DB = ' 0 2 102 130 130'
DEEP = '; trees of 2, 3 (thorough 4) levels of two or three children with arbitrary bytes, with values at the leaves, at all nodes, at the lower two levels, along one path, at every second level; '
ATT = '; the same on trees attached to or loaded from a store; '
PROPS = {
 'C01': dict(
   quick=['h_map_step 0' + D3, 'h_map_step 1' + D3, 'h_map_step 3' + D3, 'h_map_step 1' + DB, 'h_att_change 2 2 8 1' + S, 'h_att_change 1 2 8 1' + D2, 'h_map_ops 2 0 0 2 0 2', 'h_map_ops 3 0 0 1 0 2', 'h_map_step 3 0 0 2 0 1', 'h_map_step 2' + W8, 'h_map_step 2' + W, 'h_map_step 2' + B,
          'h_map_step 2 0 0 1 0 0', 'h_map_step 2 0 0 1 254 255', 'h_map_step 2 0 0 1 255 256', 'h_wide 17 1 0', 'h_wide 255 0 0', 'h_wide 256 1 0'],
   thorough=['h_map_step 0' + D3, 'h_map_step 1' + D3, 'h_map_step 3' + D3, 'h_map_step 1' + DB, 'h_att_change 2 2 8 1' + S, 'h_att_change 1 2 8 1' + D2, 'h_map_step 4' + D3, 'h_map_step 2' + D3, 'h_map_step 1' + DW, 'h_map_step 3' + D4, 'h_att_change 1 5 8 1' + D3, 'h_att_change 2 5 8 1' + W, 'h_map_ops 3 0 0 2 0 2', 'h_map_ops 4 0 0 1 0 1', 'h_map_step 3 0 0 3 0 1', 'h_map_step 4 0 0 2 0 1', 'h_map_step 3' + W8, 'h_map_step 3' + W, 'h_map_step 3' + B,
          'h_map_step 2 0 0 1 0 0', 'h_map_step 2 0 0 1 254 255', 'h_map_step 2 0 0 1 255 256', 'h_wide 17 1 0', 'h_wide 255 0 0', 'h_wide 256 0 0', 'h_wide 256 1 0'],
   bounds='up to 3 (thorough 4) operations from the empty tree, or one operation on any tree of up to 3 (thorough 4) entries; ' + DEEP + ATT + '' + SHAPES + '; 17, 255, 256 children',
   outside='longer histories are covered only as far as a state is determined by its content (C09)'),
 'C02': dict(
   quick=['h_order 0 0' + D3, 'h_order 1 0' + D3, 'h_order 2 0' + D3, 'h_order 3 0' + D3, 'h_order 4 0' + D3, 'h_order 1 0' + DB, 'h_att_query 2 2 8' + S, 'h_att_query 1 1 8' + D3, 'h_order 3 1' + S, 'h_order 2 1' + W8, 'h_order 2 1' + W, 'h_order 2 1' + B, 'h_order 3 0 0 0 2 0 0', 'h_order 2 0 0 0 1 255 256', 'h_wide 17 1 1', 'h_wide 256 0 1', 'h_wide 256 1 1'],
   thorough=['h_order 0 0' + D3, 'h_order 1 0' + D3, 'h_order 2 0' + D3, 'h_order 3 0' + D3, 'h_order 4 0' + D3, 'h_order 1 0' + DB, 'h_att_query 2 2 8' + S, 'h_att_query 1 1 8' + D3, 'h_order 1 0' + D4, 'h_order 3 0' + D4, 'h_order 1 0' + DW, 'h_att_query 1 5 8' + D3, 'h_att_query 3 5 8' + D4, 'h_att_query 2 5 8' + W, 'h_order 4 1' + S, 'h_order 3 1 0 0 3 0 1', 'h_order 3 1' + W8, 'h_order 3 1' + W, 'h_order 3 1' + B, 'h_order 3 0 0 0 2 0 0', 'h_order 2 0 0 0 1 255 256', 'h_wide 17 1 1', 'h_wide 255 0 1', 'h_wide 256 0 1', 'h_wide 256 1 1'],
   bounds='every tree of up to 3 (thorough 4) entries, built by inserts alone or with inserts and removals between; ' + DEEP + ATT + '' + SHAPES + '; 17, 255, 256 children'),
 'C03': dict(
   quick=['h_prefix 1 0 1' + D3, 'h_prefix 3 0 1' + D3, 'h_prefix 4 0 1' + D3, 'h_prefix 1 0 1' + DB, 'h_att_query 2 2 8' + S, 'h_att_query 2 2 8' + W, 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D3, 'h_prefix 0 0 1' + S, 'h_prefix 1 0 1' + S, 'h_prefix 2 1 1' + S, 'h_prefix 3 0 1' + S, 'h_prefix 2 0 2' + W8, 'h_prefix 2 0 1' + W, 'h_prefix 2 0 130' + S1, 'h_prefix 2 0 1' + B],
   thorough=['h_prefix 1 0 1' + D3, 'h_prefix 3 0 1' + D3, 'h_prefix 4 0 1' + D3, 'h_prefix 1 0 1' + DB, 'h_att_query 2 2 8' + S, 'h_att_query 2 2 8' + W, 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D3, 'h_prefix 1 0 1' + D4, 'h_prefix 0 0 1' + D3, 'h_prefix 1 0 1' + DW, 'h_att_query 1 5 8' + D3, 'h_att_query 4 5 8' + D3, 'h_att_query 2 5 8' + B, 'h_prefix 0 0 1' + S, 'h_prefix 1 0 1' + S, 'h_prefix 3 1 1' + S, 'h_prefix 3 0 1 0 0 3 0 1', 'h_prefix 4 0 1' + S, 'h_prefix 3 0 2' + W8, 'h_prefix 3 0 1' + W, 'h_prefix 2 0 130' + S1, 'h_prefix 3 0 1' + B, 'h_prefix 2 0 8' + W],
   bounds='every tree of up to 3 (thorough 4) entries, every query; ' + DEEP + ATT + '' + SHAPES),
 'C04': dict(
   quick=['h_remove_prefix 1 0' + D3, 'h_remove_prefix 2 0' + D3, 'h_remove_prefix 4 0' + D3, 'h_remove_prefix 1 0' + DB, 'h_att_change 2 2 8 1' + S, 'h_att_change 1 2 8 1' + D2, 'h_remove_prefix 3 0' + S, 'h_remove_prefix 2 1' + S, 'h_remove_prefix 2 0' + W8, 'h_remove_prefix 2 0' + W, 'h_remove_prefix 2 0' + B],
   thorough=['h_remove_prefix 1 0' + D3, 'h_remove_prefix 2 0' + D3, 'h_remove_prefix 4 0' + D3, 'h_remove_prefix 1 0' + DB, 'h_att_change 2 2 8 1' + S, 'h_att_change 1 2 8 1' + D2, 'h_remove_prefix 1 0' + D4, 'h_remove_prefix 0 0' + D3, 'h_remove_prefix 3 0' + D3, 'h_remove_prefix 1 0' + DW, 'h_att_change 1 5 8 1' + D3, 'h_att_change 2 5 8 1' + W, 'h_remove_prefix 4 0' + S, 'h_remove_prefix 3 1' + S, 'h_remove_prefix 3 0 0 0 3 0 1', 'h_remove_prefix 3 0' + W8, 'h_remove_prefix 3 0' + W, 'h_remove_prefix 3 0' + B],
   bounds='every tree of up to 3 (thorough 4) entries, every prefix; ' + DEEP + ATT + '' + SHAPES),
 'C05': dict(
   quick=['h_outer 1 1 2 0' + D2, 'h_outer 0 1 2 0' + DB, 'h_outer 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_outer 2 2 4 0' + S, 'h_outer 3 2 4 0 0 0 2 0 1', 'h_outer 2 2 2 1' + S1, 'h_outer 2 1 4 0' + W8, 'h_outer 2 1 4 0' + W],
   thorough=['h_outer 1 1 2 0' + D2, 'h_outer 0 1 2 0' + DB, 'h_outer 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_outer 0 0 2 0' + D3, 'h_outer 1 3 2 0' + D3, 'h_outer 4 1 2 0' + D2, 'h_outer 3 4 2 0' + D3, 'h_att_comb 2 2 5 5 2 8 0' + S1, 'h_att_comb 2 2 5 5 2 8 1' + S1, 'h_outer 3 3 4 0' + S, 'h_outer 2 2 4 1' + S, 'h_outer 2 2 4 0 0 0 3 0 1', 'h_outer 3 2 4 0' + W8, 'h_outer 2 2 4 0' + W, 'h_outer 2 2 4 0' + B],
   bounds='every pair of trees of up to 3 and 2 (thorough 3 and 3) entries; combining functions: keep left, keep right, drop, both joined; ' + DEEP + ATT + '' + SHAPES),
 'C06': dict(
   quick=['h_pred 2 2' + S, 'h_pred 3 2' + S1, 'h_pred 2 1' + W, 'h_pred 0 0' + D2, 'h_pred 1 3' + D2, 'h_pred 3 3' + D3, 'h_att_comb 2 2 2 2 2 8 2' + S1, 'h_inner 1 1 2 0' + D2, 'h_inner 0 1 2 0' + DB, 'h_inner 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_inner 2 2 4 0' + S, 'h_inner 3 2 4 0 0 0 2 0 1', 'h_inner 2 2 2 1' + S1, 'h_inner 2 1 4 0' + W8, 'h_inner 2 1 4 0' + W],
   thorough=['h_pred 2 2' + S, 'h_pred 3 2' + S1, 'h_pred 2 1' + W, 'h_pred 0 0' + D2, 'h_pred 1 3' + D2, 'h_pred 3 3' + D3, 'h_att_comb 2 2 2 2 2 8 2' + S1, 'h_pred 3 3' + S, 'h_pred 2 2' + W8, 'h_pred 1 1' + D3, 'h_pred 0 0' + D3, 'h_att_comb 1 1 2 2 2 8 2' + D2, 'h_inner 1 1 2 0' + D2, 'h_inner 0 1 2 0' + DB, 'h_inner 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_inner 0 0 2 0' + D3, 'h_inner 1 3 2 0' + D3, 'h_inner 4 1 2 0' + D2, 'h_inner 3 4 2 0' + D3, 'h_att_comb 2 2 5 5 2 8 0' + S1, 'h_att_comb 2 2 5 5 2 8 1' + S1, 'h_inner 3 3 4 0' + S, 'h_inner 2 2 4 1' + S, 'h_inner 2 2 4 0 0 0 3 0 1', 'h_inner 3 2 4 0' + W8, 'h_inner 2 2 4 0' + W, 'h_inner 2 2 4 0' + B],
   bounds='as C05' + DEEP + ATT + ''),
 'C07': dict(
   quick=['h_pred 2 2' + S, 'h_pred 3 2' + S1, 'h_pred 2 1' + W, 'h_pred 0 0' + D2, 'h_pred 1 3' + D2, 'h_pred 3 3' + D3, 'h_att_comb 2 2 2 2 2 8 2' + S1, 'h_left 1 1 2 0' + D2, 'h_left 0 1 2 0' + DB, 'h_left 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_left 2 2 4 0' + S, 'h_left 3 2 4 0 0 0 2 0 1', 'h_left 2 2 2 1' + S1, 'h_left 2 1 4 0' + W8, 'h_left 2 1 4 0' + W],
   thorough=['h_pred 2 2' + S, 'h_pred 3 2' + S1, 'h_pred 2 1' + W, 'h_pred 0 0' + D2, 'h_pred 1 3' + D2, 'h_pred 3 3' + D3, 'h_att_comb 2 2 2 2 2 8 2' + S1, 'h_pred 3 3' + S, 'h_pred 2 2' + W8, 'h_pred 1 1' + D3, 'h_pred 0 0' + D3, 'h_att_comb 1 1 2 2 2 8 2' + D2, 'h_left 1 1 2 0' + D2, 'h_left 0 1 2 0' + DB, 'h_left 3 1 2 0' + D2, 'h_att_comb 2 1 2 2 2 8 0' + S1, 'h_att_comb 2 1 2 2 2 8 1' + S1, 'h_left 0 0 2 0' + D3, 'h_left 1 3 2 0' + D3, 'h_left 4 1 2 0' + D2, 'h_left 3 4 2 0' + D3, 'h_att_comb 2 2 5 5 2 8 0' + S1, 'h_att_comb 2 2 5 5 2 8 1' + S1, 'h_left 3 3 4 0' + S, 'h_left 2 2 4 1' + S, 'h_left 2 2 4 0 0 0 3 0 1', 'h_left 3 2 4 0' + W8, 'h_left 2 2 4 0' + W, 'h_left 2 2 4 0' + B],
   bounds='as C05' + DEEP + ATT + ''),
 'C08': dict(
   quick=['h_by_prefixes 1 1 0' + D2 + D2, 'h_by_prefixes 1 3 0' + D2 + D2, 'h_att_by_prefixes 2 1 2 2 8' + S + S1, 'h_by_prefixes 2 2 0' + S + S, 'h_by_prefixes 3 1 0' + S + S, 'h_by_prefixes 2 1 1' + S1 + S1, 'h_by_prefixes 2 1 0' + W + ' 0 0 1 60 0', 'h_by_prefixes 2 1 0' + W8 + W8, 'h_pred 2 2' + S],
   thorough=['h_by_prefixes 1 1 0' + D2 + D2, 'h_by_prefixes 1 3 0' + D2 + D2, 'h_att_by_prefixes 2 1 2 2 8' + S + S1, 'h_by_prefixes 1 3 0' + D3 + D3, 'h_by_prefixes 4 1 0' + D2 + D2, 'h_pred 1 1' + D3, 'h_att_by_prefixes 1 1 2 2 8' + D2 + D2, 'h_att_by_prefixes 2 1 5 2 8' + S + S1, 'h_by_prefixes 3 2 0' + S + S, 'h_by_prefixes 2 2 1' + S + S, 'h_by_prefixes 2 2 0 0 0 3 0 1' + S, 'h_by_prefixes 3 2 0' + W + ' 0 0 1 60 0', 'h_by_prefixes 3 2 0' + W8 + W8, 'h_pred 3 3' + S],
   bounds='every tree of up to 3 entries against every set of up to 2 prefixes with every assignment of the predicate; set predicates (intersects, disjoint, subset) on pairs of trees of up to 2 (thorough 3) entries' + DEEP + ATT + ''),
 'C09': dict(
   quick=['h_eq_ops 2 3' + D3, 'h_eq 1 1 0 1' + D2, 'h_eq 3 4 0 1' + D2, 'h_eq 2 2 0 2' + S, 'h_eq 3 2 0 1' + S1, 'h_eq 2 2 1 1' + S1, 'h_eq_ops 3 1' + S1, 'h_eq_ops 2 2' + S, 'h_eq 2 2 0 1' + W8, 'h_eq 2 2 0 1' + W],
   thorough=['h_eq_ops 2 3' + D3, 'h_eq 1 1 0 1' + D2, 'h_eq 3 4 0 1' + D2, 'h_eq_ops 2 1' + D2, 'h_eq 1 1 0 1' + D3, 'h_eq_ops 3 3' + D2, 'h_eq 3 2 0 2' + S, 'h_eq 3 3 0 1' + S1, 'h_eq 2 2 1 1' + S, 'h_eq_ops 3 2' + S1, 'h_eq_ops 2 3' + S, 'h_eq 3 3 0 1' + W8, 'h_eq 2 2 0 1' + W, 'h_eq 2 2 0 1' + B],
   bounds='every pair of trees of up to 3 entries; a tree after up to 3 operations against the tree freshly built from what it should hold; ' + DEEP + '' + SHAPES),
 'C10': dict(
   quick=['h_group 0 0' + D3, 'h_group 1 0' + D3, 'h_group 3 0' + D3, 'h_att_query 2 2 8' + S, 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D2, 'h_group 2 1' + S, 'h_group 3 0' + S, 'h_group 2 0' + W8],
   thorough=['h_group 0 0' + D3, 'h_group 1 0' + D3, 'h_group 3 0' + D3, 'h_att_query 2 2 8' + S, 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D2, 'h_group 4 0' + D4, 'h_group 3 0' + D4, 'h_group 1 0' + DW, 'h_att_query 1 5 8' + D2, 'h_att_query 2 5 8' + W, 'h_group 3 1' + S, 'h_group 3 0 0 0 3 0 1', 'h_group 4 0' + S, 'h_group 3 0' + W8, 'h_group 2 0' + W],
   bounds='every tree of up to 3 (thorough 4) entries, every predicate decided by key length and one symbolic bit pattern' + DEEP + ATT + ''),
 'C11': dict(
   quick=['h_snap 1' + D2, 'h_snap 3' + D2, 'h_snap 2' + S, 'h_snap 3' + S1, 'h_snap 1' + W],
   thorough=['h_snap 1' + D2, 'h_snap 3' + D2, 'h_snap 0' + D2, 'h_snap 3' + D3, 'h_snap 1' + DB, 'h_snap 3' + S, 'h_snap 2' + W8, 'h_snap 2' + W],
   bounds='every tree of up to 3 entries, every operation on one clone' + DEEP + ''),
 'C12': dict(
   quick=['h_attach 0 8' + D3, 'h_attach 1 8' + D3, 'h_attach 2 8' + D3, 'h_attach 3 8' + D3, 'h_attach 4 8' + D4, 'h_attach 1 8' + DB, 'h_attach 3 0' + S, 'h_attach 3 8' + S, 'h_attach 2 1 0 0 1 130 130', 'h_attach 2 0 0 0 1 127 128', 'h_attach 2 8 0 0 1 128 129', 'h_attach 2 20 126 0 1 0 127', 'h_attach 2 100' + W, 'h_attach 1 126' + W,
          'h_attach_wide 17 8 0 0', 'h_attach_wide 17 8 130 1', 'h_attach_wide 256 8 0 1', 'h_attach_wide 256 8 1 9', 'h_attach_wide 40 8 7 3'],
   thorough=['h_attach 0 8' + D3, 'h_attach 1 8' + D3, 'h_attach 2 8' + D3, 'h_attach 3 8' + D3, 'h_attach 4 8' + D4, 'h_attach 1 8' + DB, 'h_attach 1 8' + D4, 'h_attach 1 8' + DW, 'h_attach 3 0' + D4, 'h_attach 4 0' + S, 'h_attach 4 8' + S, 'h_attach 3 8 0 0 3 0 1', 'h_attach 3 1 0 0 1 130 130', 'h_attach 3 0 0 0 1 127 128', 'h_attach 3 8 0 0 1 128 129', 'h_attach 3 20 126 0 1 0 127', 'h_attach 3 100' + W, 'h_attach 2 126' + W,
          'h_attach_wide 17 8 0 0', 'h_attach_wide 17 8 130 1', 'h_attach_wide 256 8 0 1', 'h_attach_wide 256 8 1 9', 'h_attach_wide 40 8 7 3', 'h_attach_wide 100 8 130 200'],
   bounds='every tree of up to 3 (thorough 4) entries, block identifiers of 1, 8, 20, 100, 126 bytes and those of MemStore; nodes with 17 to 256 children; ' + DEEP + '' + SHAPES,
   outside='stores whose identifiers are empty or longer than 126 bytes (the header has 7 bits for the length)'),
 'C13': dict(
   quick=['h_att_wide 255 0 8 1 0 0', 'h_att_wide 255 100 8 0 0 1', 'h_att_wide 255 255 8 1 0 0', 'h_att_wide 256 256 8 1 0 0', 'h_att_wide 254 253 8 1 0 0', 'h_att_wide 17 5 8 1 0 0', 'h_att_wide 255 100 8 1 1 1', 'h_att_wide 255 255 8 0 1 0', 'h_att_wide 255 100 8 1 2 0', 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D3, 'h_att_query 0 2 8' + DB, 'h_att_change 1 2 8 1' + D2, 'h_att_change 3 2 8 1' + D3, 'h_att_query 2 2 8' + W8, 'h_att_query 2 5 8' + S, 'h_att_query 3 2 8' + S, 'h_att_query 2 5 8' + W, 'h_att_change 2 5 8 1' + S, 'h_att_change 2 5 8 1' + W, 'h_att_change 2 2 8 2' + S1],
   thorough=['h_att_wide 255 0 8 1 0 0', 'h_att_wide 255 100 8 0 0 1', 'h_att_wide 255 255 8 1 0 0', 'h_att_wide 256 256 8 1 0 0', 'h_att_wide 254 253 8 1 0 0', 'h_att_wide 17 5 8 1 0 0', 'h_att_wide 255 100 8 1 1 1', 'h_att_wide 255 255 8 0 1 0', 'h_att_wide 255 100 8 1 2 0', 'h_att_query 3 2 8' + D3, 'h_att_query 1 1 8' + D3, 'h_att_query 0 2 8' + DB, 'h_att_change 1 2 8 1' + D2, 'h_att_change 3 2 8 1' + D3, 'h_att_query 2 2 8' + W8, 'h_att_query 1 5 8' + D3, 'h_att_query 4 5 8' + D4, 'h_att_change 1 5 8 1' + D3, 'h_att_query 1 2 8' + DW, 'h_att_wide 256 256 8 0 0 1', 'h_att_wide 255 100 8 3 2 1', 'h_att_wide 256 256 8 1 2 0', 'h_att_wide 256 256 8 4 0 0', 'h_att_query 3 5 8' + S, 'h_att_query 2 5 8' + W, 'h_att_query 2 5 8' + B, 'h_att_change 3 5 8 1' + S, 'h_att_change 2 5 8 1' + W, 'h_att_change 3 5 8 1' + W,  'h_att_change 2 5 8 2' + S],
   bounds='every tree of up to 3 entries in five ways of being stored (attached, loaded, loaded then changed, reattached, built in the store), every query, one or two changes' + DEEP + ''),
 'C14': dict(
   quick=['h_att_comb 2 1 2 2 2 8 0' + V, 'h_att_comb 2 1 2 2 2 8 1' + V, 'h_att_comb 2 1 2 2 2 8 2' + V, 'h_att_comb 1 1 2 2 2 8 2' + D2, 'h_att_comb 2 2 5 5 2 8 0' + S1, 'h_att_comb 2 2 5 5 2 8 1' + S1, 'h_att_comb 2 2 5 5 2 8 2' + S1, 'h_att_comb 2 1 2 2 2 8 0' + W, 'h_att_comb 2 1 2 2 2 8 1' + W, 'h_att_by_prefixes 2 1 5 2 8' + S + S1, 'h_att_comb 2 1 2 2 2 8 1' + S],
   thorough=['h_att_comb 2 1 2 2 2 8 0' + V, 'h_att_comb 2 1 2 2 2 8 1' + V, 'h_att_comb 2 1 2 2 2 8 2' + V, 'h_att_comb 1 1 2 2 2 8 2' + D2, 'h_att_comb 2 2 2 2 2 8 0' + V, 'h_att_comb 2 2 2 2 2 8 1' + V, 'h_att_comb 1 1 2 2 2 8 0' + D2, 'h_att_comb 1 1 2 2 2 8 1' + D2, 'h_att_comb 3 1 2 2 2 8 0' + D3, 'h_att_by_prefixes 1 1 2 2 8' + D2 + D2, 'h_att_comb 2 2 5 5 2 8 0' + S, 'h_att_comb 2 2 5 5 2 8 1' + S, 'h_att_comb 2 2 5 5 2 8 2' + S, 'h_att_comb 2 2 5 5 2 8 0' + W, 'h_att_comb 2 2 5 5 2 8 1' + W, 'h_att_by_prefixes 2 2 5 2 8' + S + S1, 'h_att_by_prefixes 2 1 2 2 8' + W + W],
   bounds='every pair of trees of up to 2 entries each, each in five ways of being stored; combining functions keep left, keep right or drop' + DEEP + ''),
 'C15': dict(
   quick=['h_versions 3 8 1 6' + D3, 'h_versions 1 8 1 6' + D2, 'h_versions 2 8 1 6' + S, 'h_versions 3 8 1 6' + S, 'h_versions 4 8 1 6 0 2 2 0 1', 'h_versions 2 1 1 6 0 0 1 130 130', 'h_versions 2 8 1 6' + W8, 'h_versions 2 8 2 4 0 0 1 0 1'],
   thorough=['h_versions 3 8 1 6' + D3, 'h_versions 1 8 1 6' + D2, 'h_versions 1 8 1 6' + D3, 'h_versions 3 8 2 6' + D2, 'h_versions 4 8 1 6' + S, 'h_versions 5 8 1 6 0 2 2 0 1', 'h_versions 3 8 2 2 0 2 2 0 1', 'h_versions 3 1 1 6 0 0 1 130 130', 'h_versions 2 8 2 6 0 0 1 0 1', 'h_versions 3 8 1 6' + W8],
   bounds='every tree of up to 4 (thorough 5) entries persisted, one or two changes (insert, remove, remove a prefix, outer and left combination in place, queries only), each on the tree at hand, a reloaded one or one loaded from the first id, each persisted; ' + DEEP + '' + SHAPES),
 'C16': dict(
   quick=['h_written 0 8 0' + D3, 'h_written 3 8 1' + D3, 'h_written 1 8 1' + DB, 'h_foreign 3 8 3 0' + D2, 'h_examples', 'h_written 3 8 0' + S, 'h_written 2 8 1' + S, 'h_written 3 8 2 0 0 1 0 1', 'h_written 2 1 1' + W, 'h_written 2 8 1 127 0 1 0 128', 'h_written 2 8 1 126 0 1 0 127', 'h_written 2 20 1' + W8,
          'h_written_wide 17 8 0 1 1', 'h_written_wide 256 8 0 3 3', 'h_written_wide 3 8 126 128 127'] +
         ['h_written_wide 3 8 %d %d %d' % x for x in [(124, 126, 126), (125, 126, 126), (126, 126, 126), (126, 127, 127), (124, 126, 125), (125, 126, 127)]] +
         ['h_foreign 2 8 15 1 0 0 1 0 1', 'h_foreign 3 8 15 0' + S, 'h_foreign 2 8 15 1' + W, 'h_foreign 2 8 7 1 126 0 1 0 9'],
   thorough=['h_written 0 8 0' + D3, 'h_written 3 8 1' + D3, 'h_written 1 8 1' + DB, 'h_foreign 3 8 3 0' + D2, 'h_written 1 8 2' + D2, 'h_written 1 8 1' + D3, 'h_foreign 1 8 3 0' + D2, 'h_examples', 'h_written 4 8 0' + S, 'h_written 3 8 1' + S, 'h_written 2 20 2' + S, 'h_written 3 1 1' + W, 'h_written 3 8 1 127 0 1 0 128', 'h_written 3 8 1 126 0 1 0 127', 'h_written 3 20 1' + W8,
          'h_written_wide 17 8 0 1 1', 'h_written_wide 17 8 0 1 2', 'h_written_wide 256 8 0 3 3', 'h_written_wide 40 8 130 200 7', 'h_written_wide 3 8 126 128 127'] +
         ['h_written_wide 3 8 %d %d %d' % x for x in [(124, 126, 126), (125, 126, 126), (126, 126, 126), (126, 127, 127), (124, 126, 125), (125, 126, 127)]] +
         ['h_foreign 3 8 15 1 0 0 1 0 1', 'h_foreign 4 8 7 0' + S, 'h_foreign 2 8 15 1' + S, 'h_foreign 2 8 15 1' + W, 'h_foreign 2 8 15 1 126 0 1 0 9'],
   bounds='writing: every tree of up to 3 (thorough 4) entries, persisted, and again after up to 2 changes, identifiers of 1, 8 and 20 bytes, up to 256 children, records of 254 to 258 bytes; the examples of the documentation with arbitrary bytes. Reading: every tree of up to 3 (thorough 4) entries written with every mixture of short data inline and behind an id, record sizes left out, an empty prefix at the root; ' + DEEP + '' + SHAPES),
 'C17': dict(
   quick=['h_bad 3 0 0 0 0 0', 'h_bad 6 0 0 0 0 0', 'h_bad 5 5 1 0 0 0', 'h_bad 3 6 3 0 0 1', 'h_bad 3 5 3 1 1 1', 'h_bad 5 3 3 1 1 0', 'h_bad_id', 'h_ids 16 2 3', 'h_mem 2 2', 'h_cycle 6'],
   thorough=['h_bad 3 0 0 0 0 0', 'h_bad 8 0 0 0 0 0', 'h_bad 5 6 2 0 0 0', 'h_bad 3 6 6 0 0 1', 'h_bad 3 6 3 1 1 1', 'h_bad 6 2 1 1 2 0', 'h_bad_id', 'h_ids 16 1 3', 'h_ids 16 2 5', 'h_mem 3 4', 'h_cycle 6'],
   bounds='root blocks of 3 to 6 (thorough 8) bytes and child blocks of 3 to 6 bytes, all bytes arbitrary, that may refer to three blocks, the second also as prefix or value; full traversal against a reading by the documentation, and each of 24 queries, changes and combinations for an answer without panic; a store that stops answering after 12 accesses; any id of up to 12 bytes for MemStore, any id of 0 to 16 bytes for PagedFileStore',
   outside='longer blocks; blocks that refer to each other in a circle are a known finding'),
 'C18': dict(
   quick=['h_fault_query 1 1 8 9' + D3, 'h_fault_query 3 1 8 12' + D3, 'h_fault_query 2 5 8 7' + S1, 'h_fault_query 2 2 8 7' + S, 'h_fault_query 2 1 8 13' + W, 'h_fault_persist 2 5 8 9' + W, 'h_fault_persist 3 2 8 7' + S, 'h_fault_change 2 5 8 9' + W, 'h_fault_change 3 2 8 7' + S,
          'h_fault_comb 2 2 2 2 8 8' + S1, 'h_fault_comb 2 1 2 2 8 16' + W, 'h_fault_comb 3 1 2 2 8 10' + S1, 'h_fault_detached 0'],
   thorough=['h_fault_query 1 1 8 9' + D3, 'h_fault_query 3 1 8 12' + D3, 'h_fault_query 0 2 8 14' + D3, 'h_fault_change 1 2 8 9' + D2, 'h_fault_persist 1 2 8 9' + D3, 'h_fault_query 3 5 8 9' + S, 'h_fault_query 2 5 8 14' + W, 'h_fault_persist 3 5 8 14' + W, 'h_fault_persist 3 5 8 9' + S, 'h_fault_change 3 5 8 14' + W, 'h_fault_change 3 5 8 9' + S,
          'h_fault_comb 2 2 5 5 8 12' + S1, 'h_fault_comb 2 1 2 2 8 24' + W, 'h_fault_comb 3 2 2 2 8 12' + S1, 'h_fault_comb 2 2 2 2 8 10' + S, 'h_fault_detached 0', 'h_fault_detached 1', 'h_fault_detached 2'],
   bounds='every tree of up to 3 entries in five ways of being stored; eleven queries, attaching, persisting, loading, three changes, and eight combinations in which either tree is in the store that fails; the store fails at any one of the first 7 to 16 (thorough 9 to 24) accesses, then works again; ' + DEEP + '' + SHAPES),
 'C19': dict(
   quick=['h_mem 4 2', 'h_mem 3 4', 'h_mem 2 9'],
   thorough=['h_mem 5 2', 'h_mem 4 4', 'h_mem 2 300', 'h_mem 9 0'],
   bounds='up to 4 (thorough 9) appends of blocks of up to 9 (thorough 300) bytes through the store or a clone, reads of every id given out and of any other id of 0, 1, 7, 8 or 9 bytes'),
 'C20': dict(
   quick=['h_paged 8 3 0 1', 'h_paged 16 3 0 1', 'h_paged 24 3 0 0', 'h_paged 64 4 6 0', 'h_paged 2056 3 4 1', 'h_paged 4096 3 4 1', 'h_page_sizes 48 3', 'h_paged 1032 4 6 0'],
   thorough=['h_paged 8 4 0 1', 'h_paged 16 4 0 1', 'h_paged 24 3 0 1', 'h_paged 32 3 0 0', 'h_paged 64 4 8 1', 'h_paged 128 2 0 1', 'h_paged 2056 4 6 1', 'h_paged 4096 4 4 1', 'h_paged 8192 3 4 1', 'h_page_sizes 64 4', 'h_paged 1032 5 6 0', 'h_paged 1048576 2 2 1'],
   bounds='up to 4 (thorough 5) blocks, on page sizes 8 to 24 (thorough 32, 128) of every size up to the limit and above, on pages up to 4096 (thorough 1 MiB) of the smallest and largest sizes, reopened between any of them; every page size up to 48 (64)',
   assumptions=['the file is the in-memory file of harness/src/file.rs, which implements lseek, read, write, ftruncate, fsync, mmap, munmap, fstat and statx as POSIX says']),
 'C21': dict(
   quick=['h_crash 16 2 0 3 0', 'h_crash 16 2 0 3 1', 'h_crash 24 2 0 3 0', 'h_crash 24 2 6 3 1', 'h_crash 16 3 3 2 0', 'h_crash 2056 2 4 2 0', 'h_crash 64 3 4 2 1'],
   thorough=['h_crash 16 3 0 3 0', 'h_crash 16 3 0 3 1', 'h_crash 24 2 0 0 0', 'h_crash 24 2 0 3 1', 'h_crash 32 2 0 3 0', 'h_crash 16 4 3 2 0', 'h_crash 2056 3 4 2 0', 'h_crash 64 3 6 2 1'],
   bounds='up to 3 (thorough 4) blocks of every size (page sizes 16, 24) or the smallest and largest (64, 2056), a crash at every change of the file, longer writes cut at 0, 1/4, 1/2 and 3/4, then reopening, an append and reopening again',
   assumptions=['changes of the file survive a crash of the process in the order in which they were made', 'a write of at most 8 bytes is all or nothing', 'the in-memory file of harness/src/file.rs']),
 'C22': dict(
   quick=['h_power 16 1 1 0 0', 'h_power 16 2 1 0 4', 'h_power 24 1 1 0 4', 'h_power 16 1 2 4 3'],
   thorough=['h_power 16 2 1 0 0', 'h_power 24 1 1 0 0', 'h_power 24 2 1 0 4', 'h_power 16 2 2 4 4', 'h_power 16 3 1 4 4', 'h_power 64 2 1 6 6'],
   bounds='up to 2 (thorough 3) blocks, a sync, up to 2 more blocks, then any subset of the changes since the sync, longer writes also by half',
   assumptions=['fsync forces everything that was written to the disk', 'a write of at most 8 bytes is all or nothing', 'the in-memory file of harness/src/file.rs']),
 'C23': dict(
   quick=['h_fault 16 2 0 40 4 1', 'h_fault 16 3 3 60 4 1', 'h_fault 24 2 4 40 4 0', 'h_fault 2056 2 3 60 4 1'],
   thorough=['h_fault 16 3 4 60 4 1', 'h_fault 24 2 0 50 2 0', 'h_fault 16 3 0 60 1 0', 'h_fault 24 3 4 60 4 0', 'h_fault 2056 3 3 80 4 1'],
   bounds='up to 3 blocks with a sync and reopening at the end, any one of the first 40 to 80 system calls fails, does a part and then fails, does a part, or is interrupted',
   assumptions=['a write of at most 8 bytes is all or nothing', 'the in-memory file of harness/src/file.rs']),
 'C25': dict(
   quick=['h_blob 3 1', 'h_blob 2 2', 'h_blob_ref 3', 'h_blob_cmp 2 2 0', 'h_blob_cmp 1 1 0', 'h_blob_cmp 2 2 9', 'h_blob_key 3' + S],
   thorough=['h_blob 4 1', 'h_blob 2 2', 'h_blob 1 3', 'h_blob_ref 4', 'h_blob_cmp 4 4 0', 'h_blob_cmp 3 3 0', 'h_blob_cmp 3 3 9', 'h_blob_key 3' + S, 'h_blob_key 2' + W8, 'h_blob_key 2' + W],
   bounds='blobs of up to 3 (thorough 4) arbitrary bytes made in every way there is; one or two (thorough three) slicings with any bounds, the largest number included, references to any part or to memory outside; comparison, order and hash of any two blobs of up to 2 (thorough 4) bytes, also after 9 equal ones; keys handed out by an iterator over any tree of up to 3 entries',
   outside='longer blobs'),
 'C24': dict(
   quick=['h_map_ops 3 0 0 1 0 2', 'h_map_step 3' + S1, 'h_map_step 2' + S, 'h_map_step 2' + W8, 'h_map_step 2' + W, 'h_map_step 2' + B, 'h_wide 17 1 0', 'h_order 2 1' + S, 'h_prefix 2 1 1' + S, 'h_remove_prefix 2 1' + S, 'h_remove_prefix 2 0' + W,
          'h_outer 2 2 4 0' + S1, 'h_inner 2 2 4 0' + S1, 'h_left 2 2 4 0' + S1, 'h_outer 2 1 4 0' + W, 'h_inner 2 1 4 0' + W, 'h_left 2 1 4 0' + W, 'h_by_prefixes 2 1 0' + S + S, 'h_by_prefixes 2 1 0' + W + ' 0 0 1 60 0',
          'h_eq_ops 2 2' + S1, 'h_group 2 1' + S, 'h_snap 2' + S, 'h_snap 1' + W, 'h_snap 2' + W8, 'h_attach 2 8' + S, 'h_attach 2 1' + W, 'h_attach_wide 17 8 130 1',
          'h_att_query 2 5 8' + S, 'h_att_change 2 5 8 1' + S1, 'h_att_change 2 5 8 1' + W, 'h_att_comb 2 1 2 2 2 8 0' + W, 'h_att_comb 2 1 2 2 2 8 1' + W, 'h_att_comb 2 1 2 2 2 8 2' + W, 'h_att_comb 2 2 5 5 2 8 1' + S1,
          'h_versions 2 8 1 6' + S, 'h_written 2 8 1' + S, 'h_foreign 2 8 15 1 0 0 1 0 1', 'h_bad 3 0 0 0 0 0', 'h_bad 5 0 0 0 0 0', 'h_bad 3 3 3 1 1 1', 'h_fault_query 2 2 8 7' + S1, 'h_fault_persist 2 5 8 9' + W, 'h_fault_change 2 5 8 9' + W, 'h_fault_comb 2 2 2 2 8 8' + S1,
          'h_mem 3 2', 'h_paged 16 3 0 1', 'h_paged 2056 3 4 1', 'h_fault 16 2 3 60 4 1', 'h_blob 3 1', 'h_blob_ref 3', 'h_blob_cmp 2 2 0', 'h_blob_key 3' + S],
   bounds='the harnesses of all other properties, at moderate bounds: every access of the code executed there is checked against the bounds and the life of what it points into, every release against what was allocated, and nothing may remain allocated at the end; ' + SHAPES,
   outside='code that no harness executes; accesses to uninitialised memory that the value read does not depend on'),
}

def more(props, quick, thorough=(), bounds=''):
    for p in props.split():
        c = PROPS[p]
        c['quick'] = c['quick'] + [x for x in quick if x not in c['quick']]
        c['thorough'] = c.get('thorough', []) + [x for x in list(quick) + list(thorough) if x not in c.get('thorough', [])]
        c['bounds'] += bounds
MIX = ' 0 0 1 0 1001'     # values of 0, 1, 9 and 130 bytes
CH = ' 0 1 106 0 1'       # a chain of six levels
CH12 = ' 0 1 112 0 1'
more('C01', ['h_list 3' + S1, 'h_list 2' + S, 'h_map_step 2' + MIX, 'h_map_step 1' + CH, 'h_map_step 1 0 0 1 0 65536', 'h_att_change 2 2 8 1' + MIX], ['h_list 4 0 0 1 0 0', 'h_list 3' + S, 'h_map_step 1' + CH12, 'h_list 3' + MIX],
     '; lists of up to 3 (thorough 4) entries with keys repeated; chains of 6 (12) levels; a value of 65536 bytes')
more('C02', ['h_order 1 0' + CH12, 'h_order 2 1' + MIX], ['h_order 3 0' + MIX])
more('C03', ['h_prefix 1 0 1' + CH12, 'h_prefix 2 0 1' + MIX], ['h_prefix 2 0 300' + S, 'h_prefix 3 0 1' + MIX])
more('C04', ['h_remove_prefix 1 0' + CH, 'h_remove_prefix 2 0' + MIX], ['h_remove_prefix 1 0' + CH12, 'h_remove_prefix 3 0' + MIX])
for p, h, o in ('C05', 'outer', 0), ('C06', 'inner', 1), ('C07', 'left', 2):
    more(p, ['h_%s 2 2 4 0 0 0 1 0 1001' % h, 'h_%s 2 2 4 0 0 0 2 0 1002' % h, 'h_%s 2 2 4 0 0 0 2 0 1003' % h, 'h_att_comb 2 2 2 2 2 8 0 0 0 1 0 1002', 'h_att_comb 2 2 2 2 2 8 1 0 0 1 0 1003', 'h_att_comb 2 2 2 2 2 8 1 0 0 1 0 1001',
             'h_comb_wide %d 130 0 1 130 64 1 0 0 0' % o, 'h_comb_wide %d 17 0 3 40 1 2 1 1 0' % o, 'h_comb_wide %d 128 0 2 128 1 2 0 0 3' % o, 'h_comb_wide %d 256 0 1 100 1 2 1 0 2' % o, 'h_comb_wide %d 100 0 2 256 0 1 0 1 3' % o],
         ['h_%s 2 2 4 0 0 1 102 0 1001' % h, 'h_%s 3 2 4 0 0 0 2 0 1002' % h, 'h_%s 3 2 4 0 0 0 2 0 1003' % h, 'h_%s 1 1 2 0 0 1 104 0 1' % h, 'h_comb_wide %d 255 0 1 255 1 1 0 0 0' % o, 'h_comb_wide %d 256 0 1 256 0 1 0 0 3' % o, 'h_comb_wide %d 17 100 9 17 101 9 3 1 3' % o, 'h_comb_wide %d 60 0 4 60 0 4 3 1 3' % o],
         '; values of length 1, 2, 7, 8, 127, 128, 130 side by side, all values of one side empty; nodes with 17 to 130 (thorough 256) children on either side')
more('C06 C07', ['h_pred 2 2 0 0 2 0 1002', 'h_pred 2 2 0 0 2 0 1003', 'h_comb_wide 3 100 0 2 256 0 1 0 1 3', 'h_comb_wide 3 256 0 1 17 3 9 1 0 0'], ['h_comb_wide 3 17 0 3 40 1 2 2 1 1', 'h_pred 1 1 0 1 112 0 1'])
more('C08', ['h_comb_wide 4 256 0 1 17 3 9 1 0 3', 'h_comb_wide 4 100 0 2 60 1 3 0 1 0', 'h_by_prefixes 2 2 0 0 0 1 0 1001' + S1, 'h_by_prefixes 1 1 0 0 1 103 0 1 0 1 103 0 1'], ['h_comb_wide 4 40 0 2 60 1 1 2 1 2', 'h_by_prefixes 3 2 0 0 0 1 0 1001' + S, 'h_by_prefixes 1 1 0 0 1 106 0 1 0 1 106 0 1'],
     '; nodes with 17 to 256 children on either side')
more('C09', ['h_eq 2 2 0 1 0 0 1 0 130', 'h_eq_ops 2 1' + CH], ['h_eq_ops 2 1' + CH12, 'h_eq_ops 3 2 0 0 1 0 130'])
more('C10', ['h_group 1 0 0 1 108 0 1', 'h_group 2 0' + MIX], ['h_group 3 0' + MIX])
more('C11', ['h_att_snap 3 2' + S1, 'h_att_snap 2 2' + S1, 'h_att_snap 1 2' + W, 'h_snap 1' + MIX, 'h_snap 1 0 1 104 0 1'], ['h_att_snap 2 5' + S, 'h_att_snap 1 2' + D2, 'h_snap 2' + MIX, 'h_att_snap 2 2' + MIX],
     '; the same on trees with nodes in a store')
more('C12', ['h_attach 3 8' + MIX, 'h_attach 1 8 0 0 1 0 70000', 'h_attach 1 8 70000 0 1 0 1', 'h_attach 1 8' + CH12, 'h_attach 1 0 0 1 140 0 1'], ['h_attach 4 8' + MIX],
     '; a key and a value of 70000 bytes; chains of 12 and 40 levels')
more('C13', ['h_att_query 3 2 8' + MIX, 'h_att_change 2 2 8 1' + MIX, 'h_att_query 1 2 8' + CH], ['h_att_query 3 5 8' + MIX, 'h_att_change 2 5 8 1' + MIX, 'h_att_query 1 2 8' + CH12, 'h_att_change 1 2 8 1' + CH])
more('C14', ['h_att_comb 2 2 2 2 4 8 0 0 0 1 0 1002', 'h_att_comb 2 2 2 2 4 8 1 0 0 1 0 1003', 'h_att_comb 2 2 2 2 4 8 1 0 0 1 0 1001', 'h_att_comb 2 2 2 2 4 8 0 0 0 1 0 1001'] +
     ['h_comb_wide %d %s %d' % (o, w, i) for o in range(5) for i, w in ((3, '17 0 3 40 1 2 1 1'), (1, '100 0 2 60 0 1 0 0'), (2, '60 5 1 100 0 2 0 0'))],
     ['h_comb_wide %d %s %d' % (o, w, i) for o in range(5) for i, w in ((3, '256 0 1 256 0 1 0 0'), (2, '256 0 1 100 0 2 0 0'), (1, '100 0 2 60 0 1 2 0'))],
     '; nodes with 17 to 100 (256) children; mixed and empty values')
more('C16', ['h_written 3 8 0' + MIX, 'h_written 1 8 1' + CH])
more('C24', ['h_list 2' + S1, 'h_att_snap 2 2' + S1, 'h_comb_wide 0 17 0 3 40 1 2 1 1 1', 'h_comb_wide 1 17 0 3 40 1 2 1 1 2', 'h_map_step 2' + MIX, 'h_outer 2 2 4 0 0 0 1 0 1001', 'h_att_comb 2 2 2 2 4 8 1 0 0 1 0 1001', 'h_att_change 2 2 8 1 0 0 1 0 1001'])
LT = ' 0 0 1 65535 0'     # keys of one byte and 65535 more
LP = ' 65535 0 1 0 0'     # 65535 bytes in common
LV = ' 0 0 1 0 65536'
LONG = '; keys and prefixes of 65536 bytes'
more('C01', ['h_map_step 1' + LT], ['h_map_step 1' + LP], LONG)
more('C02', ['h_order 2 0' + LT, 'h_order 2 0' + LP], [], LONG)
more('C03', ['h_prefix 1 0 1' + LT, 'h_prefix 1 0 1' + LP], [], LONG)
more('C04', ['h_remove_prefix 1 0' + LP], ['h_remove_prefix 1 0' + LT], LONG)
more('C05', ['h_outer 1 1 4 0' + LP[:-1] + '1', 'h_outer 1 1 4 0' + LT[:-1] + '1'], [], LONG)
more('C06', ['h_inner 1 1 4 0' + LP[:-1] + '1', 'h_inner 1 1 4 0' + LT[:-1] + '1'], [], LONG)
more('C07', ['h_left 1 1 4 0' + LP[:-1] + '1', 'h_left 1 1 4 0' + LT[:-1] + '1'], [], LONG)
more('C08', ['h_by_prefixes 1 1 0' + LP + LP, 'h_by_prefixes 1 1 0' + LT + LT], [], LONG)
more('C09', ['h_eq 1 1 0 1' + LP, 'h_eq 1 1 0 1' + LV], [], LONG)
more('C10', ['h_group 1 0' + LT, 'h_group 2 0' + LP], [], LONG)
more('C12', ['h_attach 2 8' + LT, 'h_attach 2 8' + LP], [], LONG)
more('C13', ['h_att_query 1 2 8' + LT, 'h_att_query 1 2 8' + LV], ['h_att_query 1 2 8' + LP], LONG)
more('C14', ['h_att_comb 1 1 2 2 2 8 0' + LP[:-1] + '1', 'h_att_comb 1 1 2 2 2 8 1' + LT[:-1] + '1'], [], LONG)
more('C15', [], ['h_versions 2 8 1 6' + LP], LONG)
more('C16', ['h_written 2 8 0' + LP, 'h_written 2 8 0 0 0 1 65535 65536'], [], LONG)
more('C19', ['h_many 0 300 7'], ['h_many 0 2000 3'], '; 300 (2000) blocks of fixed lengths')
more('C20', ['h_paged 64 3 6 1 32', 'h_paged 64 3 6 0 44', 'h_paged 24 3 4 1 31', 'h_paged 131072 2 4 0', 'h_many 64 40 11', 'h_many 1032 30 300', 'h_many 16 300 1'], ['h_paged 16 3 0 1 32', 'h_many 64 200 11'],
     '; offsets in the file around 2^31, 2^32 and 2^44; pages of 131072 bytes; 30 to 300 blocks of fixed lengths on up to 300 pages')
_pairs = [(h, a, b) for h in range(3) for a in range(9) for b in range(9) if h == 0 or a <= b]
_apairs = [(st, a, b) for st in (0, 1024) for a in range(6) for b in range(a, 6)]
_thr = ['h_thr_tree 3 0 %d 2 2 0 1 1 0 1' % x for x in range(9)] + ['h_thr_tree 3 0 %d 1 102 0 1 1 0 130' % x for x in range(9)] + ['h_thr_tree 4 %d %d 1 2 0 1 1 0 1' % (x, y) for x in range(8) for y in range(x, 8)] + \
   ['h_thr_tree %d %d %d 2 2 0 1 1 0 1' % x for x in _pairs] + ['h_thr_tree %d %d %d 1 102 0 1 1 0 130' % x for x in _pairs] + \
   ['h_thr_att %d %d %d 1 2 0 1 1 0 1' % x for x in _apairs] + ['h_thr_att %d %d %d 2 1 0 1 1 0 130' % x for x in _apairs] + \
   ['h_thr_store %d %d %d 2 %d %d' % (st, a, b, n, l) for st in (0, 64, 1024) for a, b in ((31, 31), (2, 2), (7, 1), (3, 24), (6, 17)) for n, l in ((1, 3), (2, 40))]
PROPS['C26'] = dict(
   quick=_thr,
   thorough=_thr + ['h_thr_tree %d %d %d 2 102 0 1 1 0 130' % x for x in _pairs] + ['h_thr_tree %d %d %d 2 100 0 1 1 0 1' % x for x in _pairs] + ['h_thr_tree %d %d %d 3 2 0 1 1 0 1' % x for x in _pairs] +
   ['h_thr_tree 4 %d %d 2 2 0 1 1 0 130' % (x, y) for x in range(8) for y in range(x, 8)] + ['h_thr_att %d %d %d 1 101 0 1 1 0 130' % x for x in _apairs] + ['h_thr_tree %d %d %d 2 2 9 1 1 9 130' % x for x in _pairs] +
   ['h_thr_store %d %d %d 3 %d %d' % (st, a, b, n, l) for st in (0, 64, 1024) for a, b in ((31, 31), (2, 2), (7, 1), (3, 24), (6, 17)) for n, l in ((2, 3), (3, 40))],
   bounds='two (with smaller trees three) threads, each with one of nine actions on a tree (iterate, insert, remove, remove_prefix, filter_prefix, combinations with another tree, drop), one of six on a tree in a store (iterate, insert, remove, insert and persist and load, detach, get), or reads, writes and syncs of the memory store and the paged file store; every schedule with up to 2 (thorough 3; with the larger trees 1, thorough 2) preemptions at atomic operations and locks; trees of two entries with arbitrary keys, and trees of 4 and 7 entries on two levels; ' + 'every access to memory is checked for data races (happens-before, all threads)',
   outside='more threads; more preemptions; effects of weakly ordered atomics other than through the happens-before order',
   assumptions=['a call of the kernel on the file is one step', 'a lock that is taken blocks the thread until it is free (the queues of parking_lot and the futex are not executed)'])
# nodes with all, nearly all or few of 256 children, in a store
more('C01 C04', ['h_att_wide 256 256 8 1 2 0', 'h_att_wide 255 255 8 0 2 1'], [])
more('C01 C02', ['h_att_wide 256 256 8 1 0 0'], [])
more('C02 C03', ['h_att_wide 256 256 8 1 1 0', 'h_att_wide 255 0 8 0 1 1', 'h_att_wide 100 40 8 1 1 3'], [])
more('C20', ['h_paged 24 3 4 1 32', 'h_paged 24 3 4 1 33', 'h_paged 56 4 6 0 33'], ['h_paged 40 4 6 1 32', 'h_paged 24 3 0 0 33'])
more('C21', ['h_crash 16 2 3 2 0 0 1', 'h_crash 24 1 0 2 0 0 1', 'h_crash 24 2 3 2 0 32 0', 'h_crash 16 2 2 2 1 32 1'], ['h_crash 24 3 4 2 0 32 0', 'h_crash 64 3 4 2 1 44 0', 'h_crash 24 2 4 2 0 0 1', 'h_crash 64 3 2 2 1 0 1'],
     '; up to 2 blocks also with a second crash, while the file is opened again or at the next append, and with a file that reaches 2^32 (thorough 2^44) bytes')
more('C22', ['h_sync 16 3 3 20 0', 'h_sync 64 3 2 30 0', 'h_sync 64 4 2 30 0', 'h_sync 64 3 2 12 32'], ['h_sync 16 4 3 30 0', 'h_sync 64 5 2 20 0', 'h_sync 24 4 2 20 33'],
     '; up to 4 (thorough 5) appends, syncs and reopenings in any order, where any one of the first 30 calls fails, and then the loss of power')
more('C23', ['h_fault 24 2 3 40 4 1 32'], ['h_fault 24 3 3 60 4 1 33'], '; a file that reaches 2^32 bytes')
more('C19', ['h_mem_many 66000'], [], '; 66000 blocks of 4 bytes')
more('C25', ['h_blob_large 300', 'h_blob_large 5000', 'h_blob_large 70000', 'h_blob_cmp 2 2 300', 'h_blob_cmp 1 1 5000'], ['h_blob_cmp 1 1 70000', 'h_blob_large 1100000'], '; slices of blobs of 300, 5000 and 70000 bytes (thorough 1.1 MB) at either end and in the middle')
# a node with any 17 (more) children
ANY = '; nodes with any 17 or 33 (thorough 40) children'
more('C01', ['h_any_wide 17 1 0 0 0', 'h_any_wide 17 0 0 1 1', 'h_any_wide 17 1 2 0 0', 'h_any_wide 17 0 2 1 1', 'h_any_wide 33 0 0 0 0'], ['h_any_wide 40 0 0 0 0', 'h_any_wide 40 0 2 0 0', 'h_any_wide 40 0 0 0 1'], ANY)
more('C03', ['h_any_wide 17 1 0 0 0', 'h_any_wide 17 1 2 0 0'], ['h_any_wide 33 0 0 1 0', 'h_any_wide 33 0 2 1 0'], ANY)
more('C04', ['h_any_wide 17 0 0 1 1', 'h_any_wide 17 0 2 1 1'], ['h_any_wide 33 1 0 0 1', 'h_any_wide 33 1 2 0 1'], ANY)
more('C13', ['h_any_wide 17 1 2 0 0', 'h_any_wide 17 0 4 0 0', 'h_any_wide 17 0 2 1 1'], ['h_any_wide 33 0 2 0 0', 'h_any_wide 33 0 2 0 1'], ANY)
# stored trees with prefixes and values in blocks of their own
more('C02 C03 C10', ['h_att_query 2 5 8' + W, 'h_att_query 1 2 8' + DB, 'h_att_query 2 2 8' + MIX], ['h_att_query 3 5 8' + W, 'h_att_query 2 5 8' + DB, 'h_att_query 3 2 8' + MIX])
more('C01 C04', ['h_att_change 2 5 8 1' + W, 'h_att_change 1 2 8 1' + DB, 'h_att_change 2 2 8 1' + MIX], ['h_att_change 3 2 8 1' + W, 'h_att_change 2 2 8 1' + DB])
more('C05 C06 C07', ['h_att_comb 2 2 2 2 2 8 0' + W, 'h_att_comb 2 2 2 2 2 8 1' + W], ['h_att_comb 1 1 2 2 2 8 0' + DB])
more('C06 C07', ['h_att_comb 2 2 2 2 2 8 2' + W], ['h_att_comb 1 1 2 2 2 8 2' + DB])
more('C08', ['h_att_by_prefixes 2 1 2 2 8' + W + W, 'h_att_by_prefixes 2 1 2 2 8' + MIX + S1], ['h_att_by_prefixes 2 2 2 2 8' + W + W, 'h_att_by_prefixes 1 1 2 2 8' + DB + D2])
# trees with hundreds of levels
DEEPER = '; trees with 260 (thorough 300) levels'
more('C01', ['h_deep_many 300 1 90 0 0', 'h_deep_many 300 7 90 0 2'], ['h_deep_many 300 1 90 0 2'], DEEPER)
more('C02', ['h_deep_many 260 1 90 0 1', 'h_deep_many 260 1 90 2 1'], ['h_deep_many 300 1 90 5 1'], DEEPER)
more('C03', ['h_deep_many 260 1 90 0 0', 'h_deep_many 260 1 90 2 0'], ['h_deep_many 300 2 7 2 0'], DEEPER)
more('C04', ['h_deep_many 260 1 90 0 2', 'h_deep_many 300 7 90 2 2'], ['h_deep_many 300 1 90 2 2'], DEEPER)
more('C05 C06 C07 C08', ['h_deep_many 260 1 90 0 4'], ['h_deep_many 300 1 90 0 4', 'h_deep_many 300 2 5 0 4'], DEEPER)
more('C09', ['h_deep_many 260 1 90 0 1'], [], DEEPER)
more('C10', ['h_deep_many 260 1 90 0 3', 'h_deep_many 260 1 90 2 3'], ['h_deep_many 300 2 7 2 3'], DEEPER)
more('C12', ['h_deep_many 260 1 90 2 1', 'h_deep_many 260 1 90 4 1'], ['h_deep_many 300 1 90 2 1'], DEEPER)
more('C13', ['h_deep_many 260 1 90 2 0', 'h_deep_many 260 7 90 2 2'], ['h_deep_many 300 1 90 2 2', 'h_deep_many 300 1 90 2 3'], DEEPER)
# combinations with any 17 children on one side; a node with one child left out
ANYC = '; any 17 children on one side and any 1 (thorough 2) on the other'
for _p, _o in (('C05', (0,)), ('C06', (1, 3)), ('C07', (2, 3)), ('C08', (4,))):
    for _i in _o:
        more(_p, ['h_any_comb_wide %d 17 1 0 0' % _i, 'h_any_comb_wide %d 1 17 1 0' % _i, 'h_comb_wide %d 30 0 1 17 3 1 1 1 0 12 0' % _i, 'h_comb_wide %d 17 3 1 30 0 1 1 1 0 0 20' % _i],
             ['h_any_comb_wide %d 17 2 0 0' % _i, 'h_any_comb_wide %d 2 17 1 0' % _i], ANYC if _i < 3 else '')
more('C14', ['h_any_comb_wide 1 17 1 0 3', 'h_any_comb_wide 0 1 17 0 1', 'h_comb_wide 1 30 0 1 17 3 1 1 1 3 12 0'], ['h_any_comb_wide 0 17 2 0 3', 'h_any_comb_wide 2 2 17 1 2', 'h_any_comb_wide 4 17 2 0 3'], ANYC)
# damage in a block of many nodes
more('C17', ['h_bad_wide 256 1 1 0 0', 'h_bad_wide 17 3 2 0 1', 'h_bad_wide 17 1 1 1 0'], ['h_bad_wide 40 1 1 0 1', 'h_bad_wide 40 3 2 1 0', 'h_bad_wide 255 2 0 0 0'], '; blocks of up to 256 nodes with an arbitrary header or first byte, or cut short')
# prefixes and values that are just short enough to be kept inline
NEAR = ' 0 0 1 126 127'
more('C12', ['h_attach 2 8' + NEAR, 'h_attach 3 8 0 0 1 125 127'])
more('C13', ['h_att_query 2 5 8' + NEAR, 'h_att_change 2 2 8 1' + NEAR])
more('C14', ['h_att_comb 2 2 2 2 2 8 0' + NEAR], ['h_att_comb 2 2 2 2 2 8 1' + NEAR])
more('C15', ['h_versions 2 8 1 6' + NEAR])
more('C02 C03 C10', [], ['h_att_query 2 5 8' + NEAR])
PROPS['C24']['thorough'] = list(dict.fromkeys(c for p in PROPS for c in PROPS[p]['quick'] if p != 'C26' and c.split()[0] not in ('h_cycle', 'h_fault_detached')))
import re
for _c in PROPS.values():
    _c['bounds'] = re.sub(r'(; )+', '; ', _c['bounds']).strip('; ')
