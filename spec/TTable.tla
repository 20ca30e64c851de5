------------------------------ MODULE TTable ------------------------------
(* Two-sided quantiles of Student's t: TTab[df][i] is the value, in 1/1000,   *)
(* exceeded in size with probability TAlpha[i]/1000.  The values are not      *)
(* trusted: MCTTable checks them against closed forms and orderings.          *)
EXTENDS Integers, Sequences
TAlpha == <<900, 800, 700, 600, 500, 400, 300, 200, 100, 50, 20, 10, 5, 2, 1>>
TTab == <<
  <<158, 325, 510, 727, 1000, 1376, 1963, 3078, 6314, 12706, 31821, 63657, 127321, 318309, 636619>>,
  <<142, 289, 445, 617, 816, 1061, 1386, 1886, 2920, 4303, 6965, 9925, 14089, 22327, 31599>>,
  <<137, 277, 424, 584, 765, 978, 1250, 1638, 2353, 3182, 4541, 5841, 7453, 10215, 12924>>,
  <<134, 271, 414, 569, 741, 941, 1190, 1533, 2132, 2776, 3747, 4604, 5598, 7173, 8610>>,
  <<132, 267, 408, 559, 727, 920, 1156, 1476, 2015, 2571, 3365, 4032, 4773, 5893, 6869>>,
  <<131, 265, 404, 553, 718, 906, 1134, 1440, 1943, 2447, 3143, 3707, 4317, 5208, 5959>>,
  <<130, 263, 402, 549, 711, 896, 1119, 1415, 1895, 2365, 2998, 3499, 4029, 4785, 5408>>,
  <<130, 262, 399, 546, 706, 889, 1108, 1397, 1860, 2306, 2896, 3355, 3833, 4501, 5041>>,
  <<129, 261, 398, 543, 703, 883, 1100, 1383, 1833, 2262, 2821, 3250, 3690, 4297, 4781>>,
  <<129, 260, 397, 542, 700, 879, 1093, 1372, 1812, 2228, 2764, 3169, 3581, 4144, 4587>>,
  <<129, 260, 396, 540, 697, 876, 1088, 1363, 1796, 2201, 2718, 3106, 3497, 4025, 4437>>,
  <<128, 259, 395, 539, 695, 873, 1083, 1356, 1782, 2179, 2681, 3055, 3428, 3930, 4318>>,
  <<128, 259, 394, 538, 694, 870, 1079, 1350, 1771, 2160, 2650, 3012, 3372, 3852, 4221>>,
  <<128, 258, 393, 537, 692, 868, 1076, 1345, 1761, 2145, 2624, 2977, 3326, 3787, 4140>>,
  <<128, 258, 393, 536, 691, 866, 1074, 1341, 1753, 2131, 2602, 2947, 3286, 3733, 4073>>,
  <<128, 258, 392, 535, 690, 865, 1071, 1337, 1746, 2120, 2583, 2921, 3252, 3686, 4015>>,
  <<128, 257, 392, 534, 689, 863, 1069, 1333, 1740, 2110, 2567, 2898, 3222, 3646, 3965>>,
  <<127, 257, 392, 534, 688, 862, 1067, 1330, 1734, 2101, 2552, 2878, 3197, 3610, 3922>>,
  <<127, 257, 391, 533, 688, 861, 1066, 1328, 1729, 2093, 2539, 2861, 3174, 3579, 3883>>,
  <<127, 257, 391, 533, 687, 860, 1064, 1325, 1725, 2086, 2528, 2845, 3153, 3552, 3850>> >>
TDfMax == 20
=============================================================================
