--------------------------------- MODULE Curcio ---------------------------------
(* Ganglion cell densities (Curcio and Allen 1990), zeros removed: eccentricity in *)
(* degrees and cells, per meridian: temporal, superior, nasal, inferior.           *)
Curcio == <<
  << << <<1, 7000, 5287, 3692, 3923, 1859>>, <<1, 0, 1800, 6371, 6724, 448, 44>> >>,
     << <<1, 0, 2736, 882, 1783, 3717>>, <<1, 0, 1700, 2776, 9002, 2750, 93>> >>,
     << <<1, 0, 776, 909, 3164, 5573>>, <<1, 0, 8400, 5996, 8645, 7869, 198>> >>,
     << <<1, 0, 474, 7775, 7649, 7427>>, <<1, 0, 5500, 2301, 6545, 1420, 345>> >>,
     << <<1, 0, 2247, 2921, 4265, 1131, 1>>, <<1, 0, 5000, 9529, 6748, 4921, 1016>> >>,
     << <<1, 0, 7686, 9364, 8295, 4827, 1>>, <<1, 0, 6000, 5213, 3176, 4333, 1460>> >>,
     << <<1, 0, 3826, 8382, 6447, 8516, 1>>, <<1, 0, 5000, 4020, 5137, 1252, 1828>> >>,
     << <<1, 0, 496, 4073, 5529, 2197, 2>>, <<1, 0, 6000, 2527, 6062, 6584, 1960>> >>,
     << <<1, 0, 9225, 3259, 2554, 5870, 2>>, <<1, 0, 0, 6171, 1796, 4751, 2085>> >>,
     << <<1, 0, 4720, 9712, 4914, 9534, 2>>, <<1, 0, 5000, 2954, 8203, 2767, 2217>> >>,
     << <<1, 0, 7100, 2905, 679, 3190, 3>>, <<1, 0, 6000, 6004, 7966, 4640, 2342>> >>,
     << <<1, 0, 9105, 4158, 9102, 6836, 3>>, <<1, 0, 0, 9903, 3058, 6603, 2374>> >>,
     << <<1, 0, 660, 1124, 9243, 4960, 5>>, <<1, 0, 0, 4906, 9565, 2556, 2069>> >>,
     << <<1, 0, 5140, 2700, 9049, 3091, 7>>, <<1, 0, 6000, 2782, 17, 5353, 1282>> >>,
     << <<1, 0, 2170, 6078, 4052, 1422, 9>>, <<1, 0, 1000, 2960, 4140, 4476, 751>> >>,
     << <<1, 0, 4520, 8171, 6596, 9947, 10>>, <<1, 0, 8400, 5571, 6927, 4300, 492>> >>,
     << <<1, 0, 4840, 4692, 380, 5225, 18>>, <<1, 0, 9400, 9838, 9692, 4545, 244>> >>,
     << <<1, 0, 670, 5066, 2041, 3127, 22>>, <<1, 0, 500, 3931, 4078, 310, 226>> >>,
     << <<1, 0, 7260, 564, 5790, 978, 26>>, <<1, 0, 5000, 1942, 1202, 325, 209>> >>,
     << <<1, 0, 9340, 7985, 848, 8703, 29>>, <<1, 0, 4000, 2517, 3855, 4036, 181>> >>,
     << <<1, 0, 5400, 7053, 7699, 6299, 33>>, <<1, 0, 6000, 3446, 1543, 7728, 143>> >>,
     << <<1, 0, 4100, 3731, 8195, 3842, 37>>, <<1, 0, 6300, 7233, 7350, 3396, 110>> >>,
     << <<1, 0, 9450, 5669, 5607, 1481, 41>>, <<1, 0, 9000, 3231, 9738, 3683, 90>> >>,
     << <<1, 0, 60, 6790, 4663, 9440, 44>>, <<1, 0, 3700, 7725, 8905, 7117, 79>> >>,
     << <<1, 0, 4400, 1303, 1581, 8019, 48>>, <<1, 0, 1000, 5131, 2134, 9320, 69>> >>,
     << <<1, 0, 1900, 4058, 4101, 7592, 52>>, <<1, 0, 6800, 4805, 679, 4710, 61>> >>,
     << <<1, 0, 1200, 235, 1523, 8610, 56>>, <<1, 0, 8300, 6711, 8790, 4876, 53>> >>,
     << <<1, 0, 9540, 6488, 4731, 1597, 61>>, <<1, 0, 2500, 7254, 2067, 6279, 46>> >>,
     << <<1, 0, 7700, 9054, 6224, 7154, 65>>, <<1, 0, 4400, 8105, 2514, 4339, 38>> >>,
     << <<1, 0, 9000, 1543, 129, 5957, 70>>, <<1, 0, 2960, 1427, 4534, 4983, 30>> >>,
     << <<1, 0, 100, 7171, 2205, 8755, 75>>, <<1, 0, 3600, 1610, 1243, 5415, 23>> >>,
     << <<1, 0, 3600, 7769, 9844, 6374, 81>>, <<1, 0, 8620, 3342, 8632, 2809, 15>> >>,
     << <<1, 0, 1800, 4815, 2046, 9717, 87>>, <<1, 0, 2290, 6617, 6005, 7329, 10>> >> >>,
  << << <<1, 0, 5440, 3180, 3396, 5502>>, <<1, 0, 7780, 6804, 8237, 5880, 28>> >>,
     << <<1, 0, 1551, 7704, 113, 7335>>, <<1, 0, 7100, 172, 2656, 3758, 119>> >>,
     << <<1, 0, 1881, 6488, 7040, 998, 1>>, <<1, 0, 2000, 4608, 8095, 1324, 700>> >>,
     << <<1, 0, 6975, 5970, 8198, 4660, 1>>, <<1, 0, 1000, 3171, 7048, 1623, 1375>> >>,
     << <<1, 0, 8192, 3132, 1490, 8322, 1>>, <<1, 0, 4000, 5492, 6957, 20, 1848>> >>,
     << <<1, 0, 474, 9048, 5071, 1983, 2>>, <<1, 0, 0, 3446, 2311, 2338, 2044>> >>,
     << <<1, 0, 9490, 4219, 7090, 5645, 2>>, <<1, 0, 6000, 2122, 3401, 6703, 2092>> >>,
     << <<1, 0, 2526, 2504, 5422, 9309, 2>>, <<1, 0, 0, 2933, 6554, 7553, 2098>> >>,
     << <<1, 0, 882, 5308, 7436, 2975, 3>>, <<1, 0, 0, 3535, 968, 3797, 2112>> >>,
     << <<1, 0, 8840, 757, 9803, 6644, 3>>, <<1, 0, 8000, 8838, 11, 232, 2039>> >>,
     << <<1, 0, 5860, 3026, 9052, 5053, 5>>, <<1, 0, 4000, 6370, 7586, 2230, 1387>> >>,
     << <<1, 0, 7870, 1835, 117, 3589, 7>>, <<1, 0, 4000, 1512, 7161, 9981, 871>> >>,
     << <<1, 0, 1250, 5436, 9604, 2248, 9>>, <<1, 0, 5000, 3753, 1997, 3718, 590>> >>,
     << <<1, 0, 4020, 1414, 6368, 1012, 11>>, <<1, 0, 3000, 6663, 8144, 9496, 431>> >>,
     << <<1, 0, 7990, 3583, 4039, 8743, 14>>, <<1, 0, 1000, 4962, 4609, 785, 241>> >>,
     << <<1, 0, 9050, 4708, 7822, 6581, 18>>, <<1, 0, 4700, 3096, 5466, 7319, 156>> >>,
     << <<1, 0, 8800, 6630, 5579, 4383, 22>>, <<1, 0, 3300, 5285, 2703, 385, 114>> >>,
     << <<1, 0, 2300, 9635, 7855, 2074, 26>>, <<1, 0, 9900, 2905, 2933, 16, 97>> >>,
     << <<1, 0, 240, 8268, 1032, 9655, 29>>, <<1, 0, 5000, 802, 204, 5295, 75>> >>,
     << <<1, 0, 6000, 1937, 6759, 7198, 33>>, <<1, 0, 7860, 4586, 4671, 357, 60>> >>,
     << <<1, 0, 7300, 6631, 5310, 4854, 37>>, <<1, 0, 100, 378, 7419, 9423, 43>> >>,
     << <<1, 0, 9700, 7071, 7077, 2846, 41>>, <<1, 0, 4700, 4640, 5732, 2609, 31>> >>,
     << <<1, 0, 8100, 6501, 3387, 1474, 45>>, <<1, 0, 3900, 6270, 9676, 4625, 26>> >>,
     << <<1, 0, 3650, 4943, 7056, 1111, 49>>, <<1, 0, 6960, 1454, 1620, 9019, 23>> >>,
     << <<1, 0, 8240, 5818, 2809, 2208, 53>>, <<1, 0, 1740, 4, 7395, 3878, 21>> >>,
     << <<1, 0, 600, 3975, 7615, 5288, 57>>, <<1, 0, 4600, 4407, 5892, 8040, 18>> >>,
     << <<1, 0, 6460, 5899, 937, 953, 62>>, <<1, 0, 3030, 1254, 6433, 7893, 15>> >>,
     << <<1, 0, 7300, 265, 4894, 9876, 66>>, <<1, 0, 3300, 7340, 5110, 1065, 12>> >>,
     << <<1, 0, 400, 8709, 4307, 2809, 72>>, <<1, 0, 1770, 4360, 5141, 7706, 8>> >>,
     << <<1, 0, 3200, 4010, 6640, 577, 78>>, <<1, 0, 5410, 2490, 8266, 3521, 7>> >>,
     << <<1, 0, 1700, 1247, 1806, 4082, 84>>, <<1, 0, 3405, 3744, 9776, 3828, 5>> >> >>,
  << << <<1, 6000, 3223, 241, 9574, 1860>>, <<1, 0, 3550, 5792, 2485, 6422, 13>> >>,
     << <<1, 0, 879, 2136, 4388, 3723>>, <<1, 0, 3560, 9997, 2548, 182, 49>> >>,
     << <<1, 0, 2099, 9394, 4034, 5587>>, <<1, 0, 1700, 3182, 837, 4298, 119>> >>,
     << <<1, 0, 9723, 7234, 8109, 7452>>, <<1, 0, 2000, 1275, 7761, 3539, 303>> >>,
     << <<1, 0, 2395, 7009, 7942, 1187, 1>>, <<1, 0, 0, 4208, 8882, 2365, 820>> >>,
     << <<1, 0, 8070, 4442, 722, 4928, 1>>, <<1, 0, 2000, 5695, 365, 5519, 1250>> >>,
     << <<1, 0, 3122, 2788, 3346, 8673, 1>>, <<1, 0, 0, 932, 700, 8329, 1593>> >>,
     << <<1, 0, 3666, 9826, 2776, 2423, 2>>, <<1, 0, 0, 2065, 6832, 3326, 1692>> >>,
     << <<1, 0, 7510, 2197, 6045, 6177, 2>>, <<1, 0, 8000, 6836, 4443, 4929, 1806>> >>,
     << <<1, 0, 9713, 2937, 251, 9936, 2>>, <<1, 0, 2000, 282, 1971, 5199, 1926>> >>,
     << <<1, 0, 7430, 4284, 2566, 3698, 3>>, <<1, 0, 7000, 4791, 4645, 1877, 2012>> >>,
     << <<1, 0, 8843, 7150, 233, 7464, 3>>, <<1, 0, 1000, 8060, 7678, 19, 2015>> >>,
     << <<1, 0, 5725, 7134, 7467, 6336, 5>>, <<1, 0, 6000, 8708, 4373, 4759, 1707>> >>,
     << <<1, 0, 3240, 5400, 7166, 5260, 7>>, <<1, 0, 2000, 8145, 4314, 7695, 1210>> >>,
     << <<1, 0, 6930, 2024, 7879, 4209, 9>>, <<1, 0, 0, 4168, 2081, 6776, 833>> >>,
     << <<1, 0, 9020, 3753, 4908, 3162, 11>>, <<1, 0, 9000, 6234, 2944, 3104, 586>> >>,
     << <<1, 0, 8180, 1623, 3511, 1016, 15>>, <<1, 0, 6000, 4428, 681, 2349, 283>> >>,
     << <<1, 0, 100, 6521, 3425, 8744, 18>>, <<1, 0, 3500, 590, 8925, 8475, 165>> >>,
     << <<1, 0, 5200, 5275, 6212, 6343, 22>>, <<1, 0, 5900, 2099, 7769, 5948, 115>> >>,
     << <<1, 0, 3240, 6362, 4740, 3886, 26>>, <<1, 0, 3000, 9246, 9322, 9537, 76>> >>,
     << <<1, 0, 5330, 7336, 3273, 1520, 30>>, <<1, 0, 2260, 5087, 749, 99, 55>> >>,
     << <<1, 0, 9600, 4853, 7525, 9467, 33>>, <<1, 0, 1000, 427, 8710, 8629, 41>> >>,
     << <<1, 0, 6400, 6016, 4703, 8026, 37>>, <<1, 0, 4750, 3843, 6468, 8208, 30>> >>,
     << <<1, 0, 3100, 1042, 3549, 7569, 41>>, <<1, 0, 5800, 545, 6095, 9901, 24>> >>,
     << <<1, 0, 9900, 7172, 4371, 8544, 45>>, <<1, 0, 8870, 656, 1324, 1101, 20>> >>,
     << <<1, 0, 1940, 1803, 9080, 1474, 50>>, <<1, 0, 9650, 2033, 6839, 8409, 16>> >>,
     << <<1, 0, 8260, 2189, 1205, 6959, 54>>, <<1, 0, 870, 4533, 6626, 9317, 12>> >>,
     << <<1, 0, 7460, 6021, 5912, 5670, 59>>, <<1, 0, 4330, 8168, 514, 264, 10>> >>,
     << <<1, 0, 3200, 1037, 4, 8358, 64>>, <<1, 0, 200, 156, 9206, 6264, 8>> >> >>,
  << << <<1, 0, 9668, 8590, 8093, 1835>>, <<1, 0, 6660, 434, 2024, 3915, 37>> >>,
     << <<1, 0, 9842, 6322, 5803, 3672>>, <<1, 0, 3800, 4345, 9185, 1269, 90>> >>,
     << <<1, 0, 4309, 5517, 3723, 5510>>, <<1, 0, 0, 8217, 2106, 4371, 249>> >>,
     << <<1, 0, 4849, 1127, 2389, 7349>>, <<1, 0, 7000, 627, 3004, 2108, 493>> >>,
     << <<1, 0, 5004, 3075, 3808, 1030, 1>>, <<1, 0, 0, 7224, 9245, 4532, 1082>> >>,
     << <<1, 0, 5480, 4701, 3199, 4716, 1>>, <<1, 0, 3000, 2948, 9221, 2758, 1610>> >>,
     << <<1, 0, 345, 6803, 2841, 8407, 1>>, <<1, 0, 3000, 8253, 6507, 3089, 1983>> >>,
     << <<1, 0, 6576, 3929, 4231, 2103, 2>>, <<1, 0, 8000, 7770, 1021, 5422, 2031>> >>,
     << <<1, 0, 6194, 6403, 8170, 5804, 2>>, <<1, 0, 0, 7843, 1280, 6789, 2069>> >>,
     << <<1, 0, 3190, 6786, 4858, 9511, 2>>, <<1, 0, 0, 3192, 5138, 4547, 2105>> >>,
     << <<1, 0, 2520, 2544, 3981, 3223, 3>>, <<1, 0, 0, 4678, 789, 9483, 2100>> >>,
     << <<1, 0, 5027, 7928, 4793, 6940, 3>>, <<1, 0, 6000, 3024, 5748, 5925, 1988>> >>,
     << <<1, 0, 4490, 2191, 6747, 5598, 5>>, <<1, 0, 6000, 7466, 2729, 2086, 1348>> >>,
     << <<1, 0, 8050, 5865, 9340, 4360, 7>>, <<1, 0, 9000, 6997, 8134, 5067, 727>> >>,
     << <<1, 0, 7520, 8557, 3040, 3200, 9>>, <<1, 0, 9000, 5226, 8965, 5855, 490>> >>,
     << <<1, 0, 9630, 5908, 212, 2090, 11>>, <<1, 0, 5500, 350, 6055, 9298, 312>> >>,
     << <<1, 0, 480, 840, 703, 9928, 14>>, <<1, 0, 8000, 3331, 4541, 1646, 144>> >>,
     << <<1, 0, 4400, 9861, 4101, 7730, 18>>, <<1, 0, 6200, 3477, 3408, 7429, 94>> >>,
     << <<1, 0, 6650, 449, 5312, 5422, 22>>, <<1, 0, 2300, 7288, 8046, 3554, 71>> >>,
     << <<1, 0, 1060, 3716, 4637, 3003, 26>>, <<1, 0, 6600, 5327, 2365, 4050, 53>> >>,
     << <<1, 0, 9300, 3223, 7462, 546, 30>>, <<1, 0, 9800, 4314, 4273, 7805, 41>> >>,
     << <<1, 0, 6400, 3676, 7722, 8200, 33>>, <<1, 0, 9000, 2553, 6968, 1849, 33>> >>,
     << <<1, 0, 8000, 8543, 9447, 6188, 37>>, <<1, 0, 9960, 4184, 7106, 2199, 26>> >>,
     << <<1, 0, 100, 6822, 7615, 4809, 41>>, <<1, 0, 1100, 4402, 8246, 8423, 21>> >>,
     << <<1, 0, 2150, 2993, 8717, 4436, 45>>, <<1, 0, 1500, 8735, 1803, 8839, 18>> >>,
     << <<1, 0, 4400, 9528, 1186, 5519, 49>>, <<1, 0, 5300, 3512, 7621, 8113, 17>> >>,
     << <<1, 0, 2700, 2816, 5736, 8580, 53>>, <<1, 0, 3830, 2512, 4966, 6549, 16>> >>,
     << <<1, 0, 8800, 9351, 5600, 4220, 58>>, <<1, 0, 4640, 4687, 6586, 2340, 14>> >>,
     << <<1, 0, 6200, 5536, 6688, 3113, 63>>, <<1, 0, 690, 6761, 3943, 2220, 10>> >>,
     << <<1, 0, 3800, 1794, 7614, 6009, 68>>, <<1, 0, 1010, 6995, 5908, 9710, 5>> >>,
     << <<1, 0, 4800, 7381, 9614, 3733, 74>>, <<1, 0, 7112, 1150, 1751, 8085, 2>> >>,
     << <<1, 0, 8000, 8232, 6345, 7186, 80>>, <<1, 0, 5473, 7281, 9009, 6778>> >> >>
>>
===============================================================================
