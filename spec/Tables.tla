------------------------------- MODULE Tables -------------------------------
(* Generated by tools/mktables.py: function values on grids. *)
EXTENDS Integers, Sequences

(* tan(pi j / 1024) * 2^20, j = 0..256 *)
TanTab == <<
  0, 3217, 6434, 9651, 12869, 16086, 19304, 22522, 25741, 28960, 32180, 
  35400, 38621, 41843, 45066, 48289, 51513, 54738, 57965, 61192, 64421, 
  67650, 70881, 74114, 77348, 80583, 83820, 87058, 90298, 93540, 96783, 
  100028, 103276, 106525, 109776, 113029, 116285, 119543, 122803, 126065, 
  129330, 132597, 135866, 139139, 142414, 145691, 148972, 152255, 155542, 
  158831, 162123, 165419, 168717, 172019, 175324, 178633, 181945, 185261, 
  188580, 191903, 195230, 198560, 201894, 205232, 208575, 211921, 215272, 
  218626, 221985, 225349, 228716, 232089, 235466, 238847, 242233, 245625, 
  249020, 252421, 255827, 259238, 262655, 266076, 269503, 272935, 276373, 
  279816, 283265, 286720, 290180, 293646, 297119, 300597, 304081, 307572, 
  311069, 314572, 318082, 321598, 325121, 328651, 332187, 335731, 339281, 
  342838, 346403, 349974, 353553, 357140, 360734, 364335, 367945, 371562, 
  375186, 378819, 382460, 386109, 389767, 393432, 397106, 400789, 404480, 
  408180, 411889, 415607, 419334, 423070, 426816, 430570, 434334, 438108, 
  441892, 445685, 449488, 453301, 457124, 460958, 464802, 468656, 472521, 
  476397, 480283, 484181, 488089, 492009, 495940, 499882, 503836, 507801, 
  511779, 515768, 519769, 523783, 527809, 531847, 535898, 539962, 544038, 
  548128, 552230, 556346, 560476, 564618, 568775, 572946, 577130, 581329, 
  585542, 589769, 594011, 598268, 602539, 606826, 611128, 615446, 619779, 
  624128, 628492, 632873, 637270, 641684, 646114, 650560, 655024, 659505, 
  664003, 668519, 673053, 677604, 682174, 686761, 691367, 695992, 700636, 
  705299, 709981, 714683, 719404, 724145, 728907, 733688, 738491, 743314, 
  748158, 753023, 757910, 762819, 767749, 772702, 777677, 782675, 787696, 
  792740, 797807, 802898, 808013, 813153, 818317, 823505, 828719, 833958, 
  839223, 844514, 849831, 855174, 860544, 865941, 871366, 876819, 882299, 
  887808, 893345, 898912, 904508, 910134, 915789, 921475, 927192, 932940, 
  938719, 944530, 950374, 956250, 962159, 968101, 974077, 980088, 986132, 
  992212, 998327, 1004478, 1010666, 1016890, 1023151, 1029450, 1035786, 
  1042162, 1048576>>

(* sin(pi/2 * j / 256) * 2^24, j = 0..256 *)
SinTab == <<
  0, 102943, 205882, 308814, 411733, 514638, 617523, 720384, 823219, 
  926023, 1028791, 1131521, 1234209, 1336849, 1439440, 1541976, 1644455, 
  1746871, 1849222, 1951503, 2053710, 2155841, 2257890, 2359854, 2461729, 
  2563511, 2665197, 2766783, 2868265, 2969638, 3070900, 3172046, 3273072, 
  3373976, 3474752, 3575398, 3675909, 3776281, 3876512, 3976596, 4076531, 
  4176312, 4275936, 4375399, 4474698, 4573827, 4672785, 4771567, 4870169, 
  4968587, 5066819, 5164860, 5262706, 5360355, 5457801, 5555042, 5652074, 
  5748893, 5845495, 5941878, 6038037, 6133968, 6229669, 6325135, 6420363, 
  6515349, 6610090, 6704582, 6798821, 6892805, 6986529, 7079990, 7173184, 
  7266109, 7358759, 7451133, 7543226, 7635036, 7726557, 7817788, 7908725, 
  7999364, 8089701, 8179734, 8269459, 8358873, 8447972, 8536753, 8625213, 
  8713348, 8801154, 8888630, 8975771, 9062573, 9149035, 9235152, 9320922, 
  9406340, 9491405, 9576112, 9660458, 9744441, 9828057, 9911303, 9994176, 
  10076672, 10158790, 10240524, 10321873, 10402834, 10483403, 10563577, 
  10643353, 10722729, 10801701, 10880266, 10958422, 11036165, 11113493, 
  11190402, 11266890, 11342953, 11418590, 11493797, 11568571, 11642909, 
  11716809, 11790268, 11863283, 11935852, 12007971, 12079638, 12150850, 
  12221604, 12291899, 12361731, 12431097, 12499995, 12568423, 12636378, 
  12703856, 12770857, 12837376, 12903413, 12968963, 13034026, 13098597, 
  13162675, 13226258, 13289343, 13351928, 13414009, 13475586, 13536656, 
  13597215, 13657263, 13716797, 13775814, 13834313, 13892291, 13949745, 
  14006675, 14063077, 14118950, 14174291, 14229098, 14283370, 14337104, 
  14390298, 14442951, 14495059, 14546622, 14597637, 14648103, 14698017, 
  14747378, 14796184, 14844432, 14892122, 14939251, 14985817, 15031819, 
  15077256, 15122124, 15166424, 15210152, 15253308, 15295889, 15337895, 
  15379323, 15420172, 15460440, 15500126, 15539229, 15577747, 15615678, 
  15653022, 15689776, 15725939, 15761510, 15796488, 15830871, 15864658, 
  15897848, 15930439, 15962431, 15993821, 16024610, 16054795, 16084375, 
  16113350, 16141719, 16169479, 16196631, 16223173, 16249104, 16274424, 
  16299131, 16323224, 16346702, 16369565, 16391812, 16413442, 16434454, 
  16454846, 16474620, 16493773, 16512305, 16530216, 16547504, 16564169, 
  16580211, 16595628, 16610420, 16624588, 16638129, 16651044, 16663331, 
  16674992, 16686025, 16696429, 16706205, 16715352, 16723869, 16731757, 
  16739015, 16745643, 16751640, 16757007, 16761743, 16765847, 16769321, 
  16772163, 16774374, 16775953, 16776900, 16777216>>

(* log2(1 + j/64) * 2^20, j = 0..64 *)
Log2Tab == <<
  0, 23454, 46551, 69300, 91711, 113796, 135563, 157021, 178179, 199045, 
  219628, 239934, 259971, 279746, 299266, 318537, 337566, 356359, 374920, 
  393257, 411375, 429278, 446971, 464460, 481749, 498843, 515745, 532461, 
  548995, 565349, 581529, 597537, 613378, 629054, 644570, 659928, 675132, 
  690185, 705089, 719848, 734464, 748941, 763280, 777484, 791557, 805500, 
  819315, 833005, 846573, 860020, 873348, 886561, 899658, 912644, 925518, 
  938284, 950944, 963498, 975949, 988298, 1000547, 1012698, 1024752, 
  1036711, 1048576>>
=============================================================================
