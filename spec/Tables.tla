------------------------------- MODULE Tables -------------------------------
(* Constants of the outside world that integer arithmetic cannot compute.    *)

(* SRGB[k] = 2^20 * (linear value whose sRGB encoding is (k - 1/2) / 255)    *)
SRGB == <<
   159, 477, 796, 1114, 1432, 1750, 2069, 2387, 2705, 3024, 3343, 3680, 4035, 4410,
   4804, 5219, 5653, 6108, 6583, 7079, 7597, 8135, 8696, 9278, 9883, 10510, 11159, 11832,
   12527, 13246, 13988, 14754, 15543, 16357, 17196, 18058, 18946, 19858, 20796, 21759, 22747, 23761,
   24801, 25867, 26960, 28079, 29224, 30396, 31596, 32822, 34076, 35357, 36666, 38003, 39367, 40760,
   42181, 43631, 45110, 46617, 48153, 49718, 51313, 52937, 54590, 56274, 57987, 59730, 61504, 63308,
   65142, 67007, 68903, 70830, 72787, 74776, 76797, 78848, 80932, 83047, 85194, 87373, 89585, 91828,
   94104, 96413, 98754, 101128, 103535, 105976, 108449, 110956, 113496, 116070, 118678, 121319, 123995, 126704,
   129448, 132226, 135039, 137886, 140768, 143685, 146636, 149623, 152645, 155702, 158795, 161923, 165087, 168287,
   171522, 174794, 178102, 181446, 184826, 188242, 191696, 195186, 198712, 202276, 205877, 209514, 213189, 216901,
   220651, 224438, 228263, 232126, 236026, 239965, 243942, 247956, 252009, 256101, 260231, 264399, 268606, 272852,
   277137, 281461, 285824, 290226, 294667, 299148, 303669, 308229, 312828, 317468, 322147, 326866, 331626, 336425,
   341265, 346145, 351066, 356027, 361029, 366072, 371156, 376280, 381446, 386652, 391900, 397189, 402520, 407892,
   413306, 418761, 424258, 429797, 435378, 441001, 446666, 452374, 458123, 463915, 469750, 475627, 481547, 487510,
   493515, 499563, 505655, 511789, 517967, 524188, 530452, 536760, 543111, 549506, 555945, 562428, 568954, 575524,
   582139, 588797, 595500, 602247, 609038, 615874, 622755, 629680, 636649, 643664, 650723, 657828, 664977, 672172,
   679411, 686697, 694027, 701403, 708824, 716291, 723804, 731362, 738966, 746617, 754313, 762055, 769844, 777678,
   785559, 793487, 801460, 809481, 817548, 825662, 833822, 842029, 850284, 858585, 866933, 875329, 883772, 892262,
   900799, 909384, 918017, 926697, 935425, 944200, 953024, 961895, 970814, 979782, 988797, 997861, 1006973, 1016133,
   1025342, 1034599, 1043905 >>

(* EXP32[k + 1] = 2^15 * e^(-k/32)                                           *)
EXP32 == <<
   32768, 31760, 30783, 29836, 28918, 28028, 27166, 26330, 25520, 24735, 23974, 23236, 22521, 21828,
   21157, 20506, 19875, 19263, 18671, 18096, 17539, 17000, 16477, 15970, 15479, 15002, 14541, 14093,
   13660, 13239, 12832, 12437, 12055, 11684, 11324, 10976, 10638, 10311, 9994, 9686, 9388, 9099,
   8819, 8548, 8285, 8030, 7783, 7544, 7312, 7087, 6869, 6657, 6452, 6254, 6061, 5875,
   5694, 5519, 5349, 5185, 5025, 4871, 4721, 4575, 4435, 4298, 4166, 4038, 3914, 3793,
   3676, 3563, 3454, 3347, 3244, 3145, 3048, 2954, 2863, 2775, 2690, 2607, 2527, 2449,
   2374, 2301, 2230, 2161, 2095, 2030, 1968, 1907, 1849, 1792, 1737, 1683, 1631, 1581,
   1533, 1485, 1440, 1395, 1352, 1311, 1271, 1231, 1194, 1157, 1121, 1087, 1053, 1021,
   990, 959, 930, 901, 873, 846, 820, 795, 771, 747, 724, 702, 680, 659,
   639, 619, 600, 582, 564, 546, 530, 513, 498, 482, 467, 453, 439, 426,
   412, 400, 387, 376, 364, 353, 342, 331, 321, 311, 302, 292, 283, 275,
   266, 258, 250, 242, 235, 228, 221, 214, 207, 201, 195, 189, 183, 177,
   172, 167, 162, 157, 152, 147, 143, 138, 134, 130, 126, 122, 118, 115,
   111, 108, 104, 101, 98, 95, 92, 89, 86, 84, 81, 79, 76, 74,
   72, 69, 67, 65, 63, 61, 59, 58, 56, 54, 52, 51, 49, 48,
   46, 45, 43, 42, 41, 40, 38, 37, 36, 35, 34, 33, 32, 31,
   30, 29, 28, 27, 26, 26, 25, 24, 23, 23, 22, 21, 21, 20,
   19, 19, 18, 18, 17, 17, 16, 16, 15, 15, 14, 14, 13, 13,
   12, 12, 12, 11, 11, 11, 10, 10, 10, 9, 9, 9, 9, 8,
   8, 8, 8, 7, 7, 7, 7, 6, 6, 6, 6, 6, 6, 5,
   5, 5, 5, 5, 5, 4, 4, 4, 4, 4, 4, 4, 4, 3,
   3, 3, 3, 3, 3, 3, 3, 3, 3, 3, 2, 2, 2, 2,
   2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 2, 1, 1,
   1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
   1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1, 1,
   1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
   0, 0, 0, 0, 0, 0, 0, 0, 0 >>
=============================================================================
