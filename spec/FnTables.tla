------------------------------ MODULE FnTables ------------------------------
(* Generated by tools/mktab.py: a thousand times the value of each function at
   multiples of 1/4; lo is the first of them (in quarters).                  *)
EXTENDS Integers, Sequences
T_Exp == [lo |-> -16, t |-> <<18, 24, 30, 39, 50, 64, 82, 105, 135, 174, 223, 287, 368, 472, 607, 779, 1000, 1284, 1649, 2117, 2718, 3490, 4482, 5755, 7389, 9488, 12182, 15643, 20086, 25790, 33115, 42521, 54598>>]
T_Log == [lo |-> 1, t |-> <<-1386, -693, -288, 0, 223, 405, 560, 693, 811, 916, 1012, 1099, 1179, 1253, 1322, 1386, 1447, 1504, 1558, 1609, 1658, 1705, 1749, 1792, 1833, 1872, 1910, 1946, 1981, 2015, 2048, 2079, 2110, 2140, 2169, 2197, 2225, 2251, 2277, 2303, 2327, 2351, 2375, 2398, 2420, 2442, 2464, 2485, 2506, 2526, 2546, 2565, 2584, 2603, 2621, 2639, 2657, 2674, 2691, 2708, 2725, 2741, 2757, 2773, 2788, 2803, 2818, 2833, 2848, 2862, 2876, 2890, 2904, 2918, 2931, 2944, 2958, 2970, 2983, 2996, 3008, 3020, 3033, 3045, 3056, 3068, 3080, 3091, 3102, 3114, 3125, 3135, 3146, 3157, 3168, 3178, 3188, 3199, 3209, 3219, 3229, 3239, 3248, 3258, 3268, 3277, 3287, 3296, 3305, 3314, 3323, 3332, 3341, 3350, 3359, 3367, 3376, 3384, 3393, 3401, 3409, 3418, 3426, 3434, 3442, 3450, 3458, 3466>>]
T_Sqrt == [lo |-> 0, t |-> <<0, 500, 707, 866, 1000, 1118, 1225, 1323, 1414, 1500, 1581, 1658, 1732, 1803, 1871, 1936, 2000, 2062, 2121, 2179, 2236, 2291, 2345, 2398, 2449, 2500, 2550, 2598, 2646, 2693, 2739, 2784, 2828, 2872, 2915, 2958, 3000, 3041, 3082, 3122, 3162, 3202, 3240, 3279, 3317, 3354, 3391, 3428, 3464, 3500, 3536, 3571, 3606, 3640, 3674, 3708, 3742, 3775, 3808, 3841, 3873, 3905, 3937, 3969, 4000, 4031, 4062, 4093, 4123, 4153, 4183, 4213, 4243, 4272, 4301, 4330, 4359, 4387, 4416, 4444, 4472, 4500, 4528, 4555, 4583, 4610, 4637, 4664, 4690, 4717, 4743, 4770, 4796, 4822, 4848, 4873, 4899, 4924, 4950, 4975, 5000, 5025, 5050, 5074, 5099, 5123, 5148, 5172, 5196, 5220, 5244, 5268, 5292, 5315, 5339, 5362, 5385, 5408, 5431, 5454, 5477, 5500, 5523, 5545, 5568, 5590, 5612, 5635, 5657, 5679, 5701, 5723, 5745, 5766, 5788, 5809, 5831, 5852, 5874, 5895, 5916, 5937, 5958, 5979, 6000, 6021, 6042, 6062, 6083, 6103, 6124, 6144, 6164, 6185, 6205, 6225, 6245, 6265, 6285, 6305, 6325, 6344, 6364, 6384, 6403, 6423, 6442, 6461, 6481, 6500, 6519, 6538, 6557, 6576, 6595, 6614, 6633, 6652, 6671, 6690, 6708, 6727, 6745, 6764, 6782, 6801, 6819, 6837, 6856, 6874, 6892, 6910, 6928, 6946, 6964, 6982, 7000, 7018, 7036, 7053, 7071, 7089, 7106, 7124, 7141, 7159, 7176, 7194, 7211, 7228, 7246, 7263, 7280, 7297, 7314, 7331, 7348, 7365, 7382, 7399, 7416, 7433, 7450, 7467, 7483, 7500, 7517, 7533, 7550, 7566, 7583, 7599, 7616, 7632, 7649, 7665, 7681, 7697, 7714, 7730, 7746, 7762, 7778, 7794, 7810, 7826, 7842, 7858, 7874, 7890, 7906, 7921, 7937, 7953, 7969, 7984, 8000>>]
T_Sin == [lo |-> -16, t |-> <<757, 572, 351, 108, -141, -382, -598, -778, -909, -984, -997, -949, -841, -682, -479, -247, 0, 247, 479, 682, 841, 949, 997, 984, 909, 778, 598, 382, 141, -108, -351, -572, -757>>]
T_Cos == [lo |-> -16, t |-> <<-654, -821, -936, -994, -990, -924, -801, -628, -416, -178, 71, 315, 540, 732, 878, 969, 1000, 969, 878, 732, 540, 315, 71, -178, -416, -628, -801, -924, -990, -994, -936, -821, -654>>]
T_Tan == [lo |-> -5, t |-> <<-3010, -1557, -932, -546, -255, 0, 255, 546, 932, 1557, 3010>>]
T_Sinh == [lo |-> -16, t |-> <<-27290, -21249, -16543, -12876, -10018, -7789, -6050, -4691, -3627, -2790, -2129, -1602, -1175, -822, -521, -253, 0, 253, 521, 822, 1175, 1602, 2129, 2790, 3627, 4691, 6050, 7789, 10018, 12876, 16543, 21249, 27290>>]
T_Cosh == [lo |-> -16, t |-> <<27308, 21272, 16573, 12915, 10068, 7853, 6132, 4797, 3762, 2964, 2352, 1888, 1543, 1295, 1128, 1031, 1000, 1031, 1128, 1295, 1543, 1888, 2352, 2964, 3762, 4797, 6132, 7853, 10068, 12915, 16573, 21272, 27308>>]
T_Asin == [lo |-> -4, t |-> <<-1571, -848, -524, -253, 0, 253, 524, 848, 1571>>]
T_Acos == [lo |-> -4, t |-> <<3142, 2419, 2094, 1823, 1571, 1318, 1047, 723, 0>>]
T_Atan == [lo |-> -16, t |-> <<-1326, -1310, -1292, -1272, -1249, -1222, -1190, -1153, -1107, -1052, -983, -896, -785, -644, -464, -245, 0, 245, 464, 644, 785, 896, 983, 1052, 1107, 1153, 1190, 1222, 1249, 1272, 1292, 1310, 1326>>]
T_Asinh == [lo |-> -16, t |-> <<-2095, -2032, -1966, -1895, -1818, -1736, -1647, -1550, -1444, -1326, -1195, -1048, -881, -693, -481, -247, 0, 247, 481, 693, 881, 1048, 1195, 1326, 1444, 1550, 1647, 1736, 1818, 1895, 1966, 2032, 2095>>]
T_Acosh == [lo |-> 4, t |-> <<0, 693, 962, 1159, 1317, 1451, 1567, 1670, 1763, 1847, 1925, 1997, 2063, 2126, 2185, 2240, 2292, 2342, 2390, 2435, 2478, 2519, 2559, 2597, 2634, 2669, 2704, 2737, 2769>>]
T_Atanh == [lo |-> -3, t |-> <<-973, -549, -255, 0, 255, 549, 973>>]
T_Sigmoid == [lo |-> -16, t |-> <<18, 23, 29, 37, 47, 60, 76, 95, 119, 148, 182, 223, 269, 321, 378, 438, 500, 562, 622, 679, 731, 777, 818, 852, 881, 905, 924, 940, 953, 963, 971, 977, 982>>]
T_Tanh == [lo |-> -16, t |-> <<-999, -999, -998, -997, -995, -992, -987, -978, -964, -941, -905, -848, -762, -635, -462, -245, 0, 245, 462, 635, 762, 848, 905, 941, 964, 978, 987, 992, 995, 997, 998, 999, 999>>]
T_Erf == [lo |-> -16, t |-> <<-1000, -1000, -1000, -1000, -1000, -1000, -1000, -999, -995, -987, -966, -923, -843, -711, -520, -276, 0, 276, 520, 711, 843, 923, 966, 987, 995, 999, 1000, 1000, 1000, 1000, 1000, 1000, 1000>>]
T_Softplus == [lo |-> -16, t |-> <<18, 23, 30, 38, 49, 62, 79, 100, 127, 160, 201, 252, 313, 387, 474, 576, 693, 826, 974, 1137, 1313, 1502, 1701, 1910, 2127, 2350, 2579, 2812, 3049, 3288, 3530, 3773, 4018>>]
T_Softsign == [lo |-> -16, t |-> <<-800, -789, -778, -765, -750, -733, -714, -692, -667, -636, -600, -556, -500, -429, -333, -200, 0, 200, 333, 429, 500, 556, 600, 636, 667, 692, 714, 733, 750, 765, 778, 789, 800>>]
T_Elu == [lo |-> -16, t |-> <<-982, -976, -970, -961, -950, -936, -918, -895, -865, -826, -777, -713, -632, -528, -393, -221, 0, 250, 500, 750, 1000, 1250, 1500, 1750, 2000, 2250, 2500, 2750, 3000, 3250, 3500, 3750, 4000>>]
T_Celu == [lo |-> -16, t |-> <<-982, -976, -970, -961, -950, -936, -918, -895, -865, -826, -777, -713, -632, -528, -393, -221, 0, 250, 500, 750, 1000, 1250, 1500, 1750, 2000, 2250, 2500, 2750, 3000, 3250, 3500, 3750, 4000>>]
T_Selu == [lo |-> -16, t |-> <<-1726, -1717, -1705, -1690, -1671, -1646, -1614, -1573, -1520, -1453, -1366, -1254, -1111, -928, -692, -389, 0, 263, 525, 788, 1051, 1313, 1576, 1839, 2101, 2364, 2627, 2889, 3152, 3415, 3677, 3940, 4203>>]
T_Gelu == [lo |-> -16, t |-> <<0, 0, -1, -2, -4, -8, -16, -28, -46, -70, -100, -132, -159, -170, -154, -100, 0, 150, 346, 580, 841, 1118, 1400, 1680, 1954, 2222, 2484, 2742, 2996, 3248, 3499, 3750, 4000>>]
T_GeluTanh == [lo |-> -16, t |-> <<0, 0, -1, -2, -4, -8, -15, -27, -45, -70, -100, -132, -159, -170, -154, -100, 0, 150, 346, 580, 841, 1118, 1400, 1680, 1955, 2223, 2485, 2742, 2996, 3248, 3499, 3750, 4000>>]
T_ErfR2 == [lo |-> -16, t |-> <<-1000, -1000, -1000, -999, -997, -994, -988, -976, -954, -920, -866, -789, -683, -547, -383, -197, 0, 197, 383, 547, 683, 789, 866, 920, 954, 976, 988, 994, 997, 999, 1000, 1000, 1000>>]
T_TanhG == [lo |-> -16, t |-> <<-1000, -1000, -1000, -999, -998, -994, -988, -976, -955, -920, -866, -788, -682, -547, -383, -197, 0, 197, 383, 547, 682, 788, 866, 920, 955, 976, 988, 994, 998, 999, 1000, 1000, 1000>>]
T_Mish == [lo |-> -16, t |-> <<-73, -87, -104, -124, -146, -170, -197, -225, -253, -278, -298, -308, -303, -276, -221, -130, 0, 170, 375, 610, 865, 1132, 1403, 1675, 1944, 2209, 2471, 2730, 2987, 3241, 3494, 3746, 3997>>]
T_HardSwish == [lo |-> -16, t |-> <<0, 0, 0, 0, 0, -115, -208, -281, -333, -365, -375, -365, -333, -281, -208, -115, 0, 135, 292, 469, 667, 885, 1125, 1385, 1667, 1969, 2292, 2635, 3000, 3250, 3500, 3750, 4000>>]
\* e^x for x <= 0, times a million
ExpM == <<1000000, 778801, 606531, 472367, 367879, 286505, 223130, 173774, 135335, 105399, 82085, 63928, 49787, 38774, 30197, 23518, 18316, 14264, 11109, 8652, 6738, 5248, 4087, 3183, 2479, 1930, 1503, 1171, 912, 710, 553, 431, 335, 261, 203, 158, 123, 96, 75, 58, 45, 35, 28, 21, 17, 13, 10, 8, 6, 5, 4, 3, 2, 2, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0>>
FnTab == [Exp |-> T_Exp,
  Log |-> T_Log,
  Sqrt |-> T_Sqrt,
  Sin |-> T_Sin,
  Cos |-> T_Cos,
  Tan |-> T_Tan,
  Sinh |-> T_Sinh,
  Cosh |-> T_Cosh,
  Asin |-> T_Asin,
  Acos |-> T_Acos,
  Atan |-> T_Atan,
  Asinh |-> T_Asinh,
  Acosh |-> T_Acosh,
  Atanh |-> T_Atanh,
  Sigmoid |-> T_Sigmoid,
  Tanh |-> T_Tanh,
  Erf |-> T_Erf,
  Softplus |-> T_Softplus,
  Softsign |-> T_Softsign,
  Elu |-> T_Elu,
  Celu |-> T_Celu,
  Selu |-> T_Selu,
  Gelu |-> T_Gelu,
  GeluTanh |-> T_GeluTanh,
  ErfR2 |-> T_ErfR2,
  TanhG |-> T_TanhG,
  Mish |-> T_Mish,
  HardSwish |-> T_HardSwish]
=============================================================================
