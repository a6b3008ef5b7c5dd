# made by tools/mklayouts.py: sizes that lay out, per variant and number of ranks
LAYOUTS = {
    'v1': {
        1: [(8,), (5,), (13,), (12,)],
        2: [(8,), (5,), (13,), (12,)],
        3: [(8,), (5,), (13,), (12,)],
        4: [(8,), (5,), (13,), (12,)],
        5: [(8,), (13,), (12,)],
        6: [(8,), (13,), (12,)],
        8: [(13,), (12,)],
    },
    'v2': {
        1: [(4, 6), (6, 4), (4, 8), (8, 4), (4, 5), (5, 4), (3, 7), (7, 3), (6, 6), (4, 9), (9, 4), (2, 12), (12, 2)],
        2: [(4, 6), (6, 4), (4, 8), (8, 4), (4, 5), (5, 4), (3, 7), (7, 3), (6, 6), (4, 9), (9, 4), (2, 12), (12, 2)],
        3: [(4, 6), (6, 4), (4, 8), (8, 4), (4, 5), (5, 4), (6, 6), (4, 9), (9, 4), (2, 12), (12, 2)],
        4: [(4, 6), (6, 4), (4, 8), (8, 4), (3, 7), (7, 3), (6, 6), (2, 12), (12, 2)],
        5: [(4, 6), (6, 4), (4, 8), (8, 4), (3, 7), (7, 3), (6, 6), (4, 9), (9, 4), (2, 12), (12, 2)],
        6: [(4, 6), (6, 4), (4, 8), (8, 4), (4, 5), (5, 4), (6, 6), (4, 9), (9, 4), (2, 12), (12, 2)],
        8: [(4, 8), (8, 4), (6, 6)],
    },
    'v3': {
        1: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (4, 5, 6), (4, 6, 5), (5, 4, 6), (5, 6, 4), (6, 4, 5), (6, 5, 4), (3, 4, 5), (3, 5, 4), (4, 3, 5), (4, 5, 3), (5, 3, 4), (5, 4, 3), (3, 4, 7), (3, 7, 4), (4, 3, 7), (4, 7, 3), (7, 3, 4), (7, 4, 3), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        2: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (4, 5, 6), (4, 6, 5), (5, 4, 6), (5, 6, 4), (6, 4, 5), (6, 5, 4), (3, 4, 5), (3, 5, 4), (4, 3, 5), (4, 5, 3), (5, 3, 4), (5, 4, 3), (3, 4, 7), (3, 7, 4), (4, 3, 7), (4, 7, 3), (7, 3, 4), (7, 4, 3), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        3: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (4, 5, 6), (4, 6, 5), (5, 4, 6), (5, 6, 4), (6, 4, 5), (6, 5, 4), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        4: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (4, 5, 6), (4, 6, 5), (5, 4, 6), (5, 6, 4), (6, 4, 5), (6, 5, 4), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        6: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (4, 5, 6), (4, 6, 5), (5, 4, 6), (5, 6, 4), (6, 4, 5), (6, 5, 4), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        8: [(4, 4, 4), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (3, 4, 7), (3, 7, 4), (4, 3, 7), (4, 7, 3), (7, 3, 4), (7, 4, 3), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
        5: [(2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (2, 4, 8), (2, 8, 4), (4, 2, 8), (4, 8, 2), (8, 2, 4), (8, 4, 2), (3, 4, 7), (3, 7, 4), (4, 3, 7), (4, 7, 3), (7, 3, 4), (7, 4, 3), (4, 6, 6), (6, 4, 6), (6, 6, 4)],
    },
    'v4': {
        1: [(2, 2, 4, 4), (2, 4, 2, 4), (2, 4, 4, 2), (4, 2, 2, 4), (4, 2, 4, 2), (4, 4, 2, 2), (2, 2, 4, 6), (2, 2, 6, 4), (2, 4, 2, 6), (2, 4, 6, 2), (2, 6, 2, 4), (2, 6, 4, 2), (4, 2, 2, 6), (4, 2, 6, 2), (4, 6, 2, 2), (6, 2, 2, 4), (6, 2, 4, 2), (6, 4, 2, 2), (2, 2, 3, 4), (2, 2, 4, 3), (2, 3, 2, 4), (2, 3, 4, 2), (2, 4, 2, 3), (2, 4, 3, 2), (3, 2, 2, 4), (3, 2, 4, 2), (3, 4, 2, 2), (4, 2, 2, 3), (4, 2, 3, 2), (4, 3, 2, 2), (2, 4, 4, 4), (4, 2, 4, 4), (4, 4, 2, 4), (4, 4, 4, 2), (2, 2, 3, 5), (2, 2, 5, 3), (2, 3, 2, 5), (2, 3, 5, 2), (2, 5, 2, 3), (2, 5, 3, 2), (3, 2, 2, 5), (3, 2, 5, 2), (3, 5, 2, 2), (5, 2, 2, 3), (5, 2, 3, 2), (5, 3, 2, 2)],
        2: [(2, 2, 4, 4), (2, 4, 2, 4), (2, 4, 4, 2), (4, 2, 2, 4), (4, 2, 4, 2), (4, 4, 2, 2), (2, 2, 4, 6), (2, 2, 6, 4), (2, 4, 2, 6), (2, 4, 6, 2), (2, 6, 2, 4), (2, 6, 4, 2), (4, 2, 2, 6), (4, 2, 6, 2), (4, 6, 2, 2), (6, 2, 2, 4), (6, 2, 4, 2), (6, 4, 2, 2), (2, 2, 3, 4), (2, 2, 4, 3), (2, 3, 2, 4), (2, 3, 4, 2), (2, 4, 2, 3), (2, 4, 3, 2), (3, 2, 2, 4), (3, 2, 4, 2), (3, 4, 2, 2), (4, 2, 2, 3), (4, 2, 3, 2), (4, 3, 2, 2), (2, 4, 4, 4), (4, 2, 4, 4), (4, 4, 2, 4), (4, 4, 4, 2)],
        4: [(2, 2, 4, 4), (2, 4, 2, 4), (2, 4, 4, 2), (4, 2, 2, 4), (4, 2, 4, 2), (4, 4, 2, 2), (2, 2, 4, 6), (2, 2, 6, 4), (2, 4, 2, 6), (2, 4, 6, 2), (2, 6, 2, 4), (2, 6, 4, 2), (4, 2, 2, 6), (4, 2, 6, 2), (4, 6, 2, 2), (6, 2, 2, 4), (6, 2, 4, 2), (6, 4, 2, 2), (2, 4, 4, 4), (4, 2, 4, 4), (4, 4, 2, 4), (4, 4, 4, 2)],
        3: [(2, 4, 2, 4), (4, 2, 4, 2), (2, 2, 6, 4), (2, 6, 2, 4), (4, 2, 6, 2), (6, 2, 4, 2), (4, 2, 4, 4)],
        6: [(2, 4, 2, 4), (4, 2, 4, 2), (2, 2, 6, 4), (2, 6, 2, 4), (4, 2, 6, 2), (6, 2, 4, 2), (4, 2, 4, 4)],
        5: [(2, 4, 2, 6), (2, 6, 4, 2), (4, 6, 2, 2), (6, 4, 2, 2)],
        8: [(2, 4, 4, 4), (4, 4, 4, 2)],
    },
    'a2': {
        1: [(8, 8), (8, 16), (16, 8), (4, 8), (8, 4)],
        2: [(8, 8), (8, 16), (16, 8)],
        4: [(8, 16), (16, 8)],
        3: [(8, 12), (12, 8)],
    },
    'a3': {
        1: [(4, 4, 8), (4, 8, 4), (8, 4, 4), (4, 8, 8), (8, 4, 8), (8, 8, 4), (4, 4, 4)],
        2: [(4, 4, 8), (4, 8, 4), (8, 4, 4), (4, 8, 8), (8, 4, 8), (8, 8, 4)],
        4: [(4, 8, 8), (8, 4, 8), (8, 8, 4)],
        3: [(4, 4, 12), (4, 12, 4), (12, 4, 4), (4, 6, 8), (4, 8, 6), (6, 4, 8), (6, 8, 4), (8, 4, 6), (8, 6, 4)],
    },
    'a4': {
        1: [(4, 4, 4, 4), (2, 4, 4, 4), (4, 2, 4, 4), (4, 4, 2, 4), (4, 4, 4, 2), (2, 4, 4, 8), (2, 4, 8, 4), (2, 8, 4, 4), (4, 2, 4, 8), (4, 2, 8, 4), (4, 4, 2, 8), (4, 4, 8, 2), (4, 8, 2, 4), (4, 8, 4, 2), (8, 2, 4, 4), (8, 4, 2, 4), (8, 4, 4, 2)],
        2: [(4, 4, 4, 4), (2, 4, 4, 8), (2, 4, 8, 4), (2, 8, 4, 4), (4, 2, 4, 8), (4, 2, 8, 4), (4, 4, 2, 8), (4, 4, 8, 2), (4, 8, 2, 4), (4, 8, 4, 2), (8, 2, 4, 4), (8, 4, 2, 4), (8, 4, 4, 2)],
        4: [(4, 2, 4, 8), (4, 2, 8, 4), (4, 4, 2, 8), (4, 4, 8, 2), (4, 8, 2, 4), (4, 8, 4, 2)],
    },
    'o3': {
        1: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (3, 4, 5), (3, 5, 4), (4, 3, 5), (4, 5, 3), (5, 3, 4), (5, 4, 3)],
        2: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2), (3, 4, 5), (3, 5, 4), (4, 3, 5), (4, 5, 3), (5, 3, 4), (5, 4, 3)],
        3: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2)],
        4: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2)],
        6: [(4, 4, 4), (2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2)],
        8: [(4, 4, 4)],
        5: [(2, 4, 6), (2, 6, 4), (4, 2, 6), (4, 6, 2), (6, 2, 4), (6, 4, 2)],
    },
}
