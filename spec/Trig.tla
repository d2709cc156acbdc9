------------------------------- MODULE Trig -------------------------------
(* Sine of i/2880 turns in units of 1/SC, rounded; e^-2pi i/40 likewise.      *)
EXTENDS Integers
SC == 100000
Turn == 2880
Quarter == <<
  0, 218, 436, 654, 873, 1091, 1309, 1527, 1745, 1963, 2181, 2400, 2618, 2836, 3054, 3272,
  3490, 3708, 3926, 4144, 4362, 4580, 4798, 5016, 5234, 5451, 5669, 5887, 6105, 6323, 6540, 6758,
  6976, 7193, 7411, 7628, 7846, 8063, 8281, 8498, 8716, 8933, 9150, 9367, 9585, 9802, 10019, 10236,
  10453, 10670, 10887, 11104, 11320, 11537, 11754, 11970, 12187, 12403, 12620, 12836, 13053, 13269, 13485, 13701,
  13917, 14133, 14349, 14565, 14781, 14997, 15212, 15428, 15643, 15859, 16074, 16290, 16505, 16720, 16935, 17150,
  17365, 17580, 17794, 18009, 18224, 18438, 18652, 18867, 19081, 19295, 19509, 19723, 19937, 20151, 20364, 20578,
  20791, 21005, 21218, 21431, 21644, 21857, 22070, 22282, 22495, 22708, 22920, 23132, 23345, 23557, 23769, 23980,
  24192, 24404, 24615, 24827, 25038, 25249, 25460, 25671, 25882, 26093, 26303, 26514, 26724, 26934, 27144, 27354,
  27564, 27773, 27983, 28192, 28402, 28611, 28820, 29028, 29237, 29446, 29654, 29862, 30071, 30279, 30486, 30694,
  30902, 31109, 31316, 31523, 31730, 31937, 32144, 32350, 32557, 32763, 32969, 33175, 33381, 33586, 33792, 33997,
  34202, 34407, 34612, 34816, 35021, 35225, 35429, 35633, 35837, 36040, 36244, 36447, 36650, 36853, 37056, 37258,
  37461, 37663, 37865, 38067, 38268, 38470, 38671, 38872, 39073, 39274, 39474, 39675, 39875, 40075, 40275, 40474,
  40674, 40873, 41072, 41271, 41469, 41668, 41866, 42064, 42262, 42459, 42657, 42854, 43051, 43248, 43445, 43641,
  43837, 44033, 44229, 44424, 44620, 44815, 45010, 45205, 45399, 45593, 45787, 45981, 46175, 46368, 46561, 46754,
  46947, 47140, 47332, 47524, 47716, 47907, 48099, 48290, 48481, 48672, 48862, 49052, 49242, 49432, 49622, 49811,
  50000, 50189, 50377, 50566, 50754, 50942, 51129, 51317, 51504, 51691, 51877, 52064, 52250, 52436, 52621, 52807,
  52992, 53177, 53361, 53546, 53730, 53914, 54097, 54281, 54464, 54647, 54829, 55012, 55194, 55375, 55557, 55738,
  55919, 56100, 56280, 56461, 56641, 56820, 57000, 57179, 57358, 57536, 57715, 57893, 58070, 58248, 58425, 58602,
  58779, 58955, 59131, 59307, 59482, 59658, 59832, 60007, 60182, 60356, 60529, 60703, 60876, 61049, 61222, 61394,
  61566, 61738, 61909, 62081, 62251, 62422, 62592, 62762, 62932, 63101, 63271, 63439, 63608, 63776, 63944, 64111,
  64279, 64446, 64612, 64779, 64945, 65111, 65276, 65441, 65606, 65770, 65935, 66098, 66262, 66425, 66588, 66751,
  66913, 67075, 67237, 67398, 67559, 67720, 67880, 68040, 68200, 68359, 68518, 68677, 68835, 68994, 69151, 69309,
  69466, 69623, 69779, 69935, 70091, 70246, 70401, 70556, 70711, 70865, 71019, 71172, 71325, 71478, 71630, 71782,
  71934, 72085, 72236, 72387, 72537, 72687, 72837, 72986, 73135, 73284, 73432, 73580, 73728, 73875, 74022, 74168,
  74314, 74460, 74606, 74751, 74896, 75040, 75184, 75328, 75471, 75614, 75756, 75899, 76041, 76182, 76323, 76464,
  76604, 76744, 76884, 77024, 77162, 77301, 77439, 77577, 77715, 77852, 77988, 78125, 78261, 78396, 78532, 78667,
  78801, 78935, 79069, 79202, 79335, 79468, 79600, 79732, 79864, 79995, 80125, 80256, 80386, 80515, 80644, 80773,
  80902, 81030, 81157, 81285, 81412, 81538, 81664, 81790, 81915, 82040, 82165, 82289, 82413, 82536, 82659, 82782,
  82904, 83026, 83147, 83268, 83389, 83509, 83629, 83748, 83867, 83986, 84104, 84222, 84339, 84456, 84573, 84689,
  84805, 84920, 85035, 85150, 85264, 85378, 85491, 85604, 85717, 85829, 85941, 86052, 86163, 86273, 86384, 86493,
  86603, 86711, 86820, 86928, 87036, 87143, 87250, 87356, 87462, 87568, 87673, 87777, 87882, 87986, 88089, 88192,
  88295, 88397, 88499, 88600, 88701, 88802, 88902, 89001, 89101, 89199, 89298, 89396, 89493, 89591, 89687, 89784,
  89879, 89975, 90070, 90164, 90259, 90352, 90446, 90538, 90631, 90723, 90814, 90905, 90996, 91086, 91176, 91266,
  91355, 91443, 91531, 91619, 91706, 91793, 91879, 91965, 92050, 92136, 92220, 92304, 92388, 92471, 92554, 92636,
  92718, 92800, 92881, 92962, 93042, 93121, 93201, 93280, 93358, 93436, 93514, 93591, 93667, 93743, 93819, 93894,
  93969, 94044, 94118, 94191, 94264, 94337, 94409, 94481, 94552, 94623, 94693, 94763, 94832, 94901, 94970, 95038,
  95106, 95173, 95240, 95306, 95372, 95437, 95502, 95566, 95630, 95694, 95757, 95820, 95882, 95944, 96005, 96066,
  96126, 96186, 96246, 96305, 96363, 96421, 96479, 96536, 96593, 96649, 96705, 96760, 96815, 96869, 96923, 96977,
  97030, 97082, 97134, 97186, 97237, 97288, 97338, 97388, 97437, 97486, 97534, 97582, 97630, 97677, 97723, 97769,
  97815, 97860, 97905, 97949, 97992, 98036, 98079, 98121, 98163, 98204, 98245, 98285, 98325, 98365, 98404, 98443,
  98481, 98518, 98556, 98592, 98629, 98664, 98700, 98734, 98769, 98803, 98836, 98869, 98902, 98934, 98965, 98996,
  99027, 99057, 99087, 99116, 99144, 99173, 99200, 99228, 99255, 99281, 99307, 99332, 99357, 99382, 99406, 99429,
  99452, 99475, 99497, 99518, 99540, 99560, 99580, 99600, 99619, 99638, 99657, 99674, 99692, 99709, 99725, 99741,
  99756, 99771, 99786, 99800, 99813, 99827, 99839, 99851, 99863, 99874, 99885, 99895, 99905, 99914, 99923, 99931,
  99939, 99946, 99953, 99960, 99966, 99971, 99976, 99981, 99985, 99988, 99991, 99994, 99996, 99998, 99999, 100000,
  100000>>
SinT(i) == LET m == i % Turn
           IN CASE m <= 720 -> Quarter[m + 1]
                [] m <= 1440 -> Quarter[1440 - m + 1]
                [] m <= 2160 -> -Quarter[m - 1440 + 1]
                [] OTHER -> -Quarter[2880 - m + 1]
CosT(i) == SinT(i + 720)
ExpT == <<100000, 85464, 73040, 62423, 53349, 45594, 38966, 33302, 28461, 24324, 20788, 17766, 15184, 12976, 11090, 9478, 8100, 6923, 5916, 5056, 4321>>
=============================================================================
