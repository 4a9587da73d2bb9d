------------------------------- MODULE Tables2 ------------------------------
(* Generated by tools/mktables.py. *)
EXTENDS Integers, Sequences

(* band-limited rectangle, quarter cycle, scale 2^24 *)
BlRect == <<
  0, 279604, 559119, 838447, 1117500, 1396186, 1674414, 1952091, 2229126, 
  2505433, 2780915, 3055489, 3329061, 3601548, 3872856, 4142903, 4411598, 
  4678860, 4944601, 5208741, 5471194, 5731876, 5990714, 6247621, 6502515, 
  6755332, 7005988, 7254404, 7500515, 7744236, 7985516, 8224266, 8460424, 
  8693936, 8924723, 9152718, 9377873, 9600104, 9819392, 10035644, 10248825, 
  10458874, 10665742, 10869377, 11069747, 11266778, 11460439, 11650692, 
  11837489, 12020780, 12200569, 12376817, 12549462, 12718474, 12883825, 
  13045492, 13203490, 13357759, 13508263, 13655022, 13798005, 13937185, 
  14072565, 14204114, 14331874, 14455797, 14575897, 14692142, 14804594, 
  14913170, 15017966, 15118914, 15216074, 15309425, 15398969, 15484778, 
  15566833, 15645135, 15719718, 15790610, 15857842, 15921410, 15981370, 
  16037739, 16090563, 16139849, 16185653, 16227993, 16266917, 16302468, 
  16334724, 16363567, 16389280, 16411742, 16431049, 16447269, 16460358, 
  16470484, 16477660, 16481928, 16483340, 16481947, 16477813, 16470984, 
  16461557, 16449571, 16435061, 16418120, 16398803, 16377175, 16353252, 
  16327162, 16298971, 16268685, 16236434, 16202242, 16166150, 16128298, 
  16088723, 16047477, 16004705, 15960320, 15914525, 15867337, 15818850, 
  15769104, 15718202, 15666131, 15613039, 15558981, 15504041, 15448236, 
  15391670, 15334387, 15276482, 15217996, 15159008, 15099603, 15039766, 
  14979666, 14919307, 14858793, 14798123, 14737366, 14676632, 14615943, 
  14555389, 14495011, 14434872, 14374989, 14315472, 14256321, 14197633, 
  14139466, 14081835, 14024800, 13968422, 13912735, 13857808, 13803606, 
  13750271, 13697815, 13646264, 13595662, 13546065, 13497479, 13449934, 
  13403508, 13358205, 13314055, 13271068, 13229346, 13188846, 13149625, 
  13111660, 13075040, 13039770, 13005816, 12973260, 12942084, 12912289, 
  12883938, 12857019, 12831502, 12807510, 12784943, 12763819, 12744186, 
  12726017, 12709317, 12694099, 12680393, 12668111, 12657334, 12647997, 
  12640134, 12633717, 12628729, 12625191, 12623093, 12622406, 12623093, 
  12625166, 12628591, 12633404, 12639543, 12647011, 12655731, 12665731, 
  12677000, 12689497, 12703178, 12718057, 12734086, 12751278, 12769501, 
  12788837, 12809163, 12830554, 12852908, 12876252, 12900479, 12925598, 
  12951573, 12978390, 13005970, 13034294, 13063397, 13093127, 13123532, 
  13154545, 13186147, 13218248, 13250881, 13284014, 13317527, 13351526, 
  13385784, 13420407, 13455316, 13490466, 13525827, 13561415, 13597101, 
  13632879, 13668769, 13704631, 13740512, 13776376, 13812141, 13847833, 
  13883292, 13918680, 13953815, 13988752, 14023336, 14057666, 14091623, 
  14125240, 14158464, 14191227, 14223572, 14255404, 14286740, 14317512, 
  14347738, 14377370, 14406359, 14434718, 14462449, 14489445, 14515776, 
  14541381, 14566185, 14590249, 14613562, 14636030, 14657713, 14678509, 
  14698502, 14717621, 14735871, 14753232, 14769694, 14785232, 14799859, 
  14813595, 14826388, 14838239, 14849131, 14859094, 14868097, 14876145, 
  14883260, 14889407, 14894625, 14898844, 14902145, 14904492, 14905922, 
  14906359, 14905908, 14904508, 14902211, 14898980, 14894847, 14889881, 
  14883989, 14877229, 14869620, 14861140, 14851857, 14841758, 14830879, 
  14819179, 14806745, 14793519, 14779589, 14764957, 14749605, 14733601, 
  14716914, 14699623, 14681683, 14663172, 14644089, 14624444, 14604295, 
  14583611, 14562482, 14540873, 14518843, 14496406, 14473586, 14450412, 
  14426889, 14403084, 14378975, 14354587, 14330018, 14305187, 14280203, 
  14255079, 14229802, 14204445, 14178974, 14153491, 14127931, 14102393, 
  14076909, 14051447, 14026050, 14000789, 13975601, 13950573, 13925678, 
  13901032, 13876614, 13852384, 13828427, 13804776, 13781444, 13758379, 
  13735724, 13713364, 13691475, 13669920, 13648847, 13628202, 13608018, 
  13588319, 13569079, 13550411, 13532204, 13514594, 13497537, 13481067, 
  13465142, 13449794, 13435101, 13421045, 13407598, 13394770, 13382624, 
  13371131, 13360293, 13350111, 13340664, 13331853, 13323796, 13316358, 
  13309659, 13303659, 13298372, 13293780, 13289907, 13286734, 13284303, 
  13282523, 13281477, 13281141, 13281457, 13282507, 13284246, 13286632, 
  13289804, 13293523, 13297974, 13303082, 13308824, 13315220, 13322275, 
  13329866, 13338153, 13347026, 13356475, 13366480, 13377058, 13388170, 
  13399844, 13412067, 13424760, 13437948, 13451681, 13465818, 13480373, 
  13495423, 13510870, 13526716, 13542882, 13559460, 13576378, 13593580, 
  13611153, 13628996, 13647092, 13665458, 13684027, 13702830, 13721806, 
  13740955, 13760285, 13779761, 13799269, 13818928, 13838667, 13858440, 
  13878255, 13898124, 13917930, 13937727, 13957467, 13977130, 13996741, 
  14016253, 14035680, 14054892, 14074017, 14092901, 14111624, 14130142, 
  14148451, 14166437, 14184260, 14201754, 14218973, 14235853, 14252412, 
  14268662, 14284553, 14300035, 14315197, 14329914, 14344247, 14358145, 
  14371597, 14384659, 14397190, 14409317, 14420948, 14432085, 14442735, 
  14452871, 14462506, 14471634, 14480248, 14488298, 14495797, 14502837, 
  14509235, 14515157, 14520481, 14525261, 14529487, 14533117, 14536232, 
  14538763, 14540732, 14542105, 14542962, 14543257, 14542964, 14542115, 
  14540738, 14538808, 14536322, 14533299, 14529731, 14525654, 14521042, 
  14515889, 14510237, 14504096, 14497439, 14490323, 14482708, 14474629, 
  14466081, 14457090, 14447662, 14437822, 14427554, 14416883, 14405815, 
  14394364, 14382576, 14370389, 14357883, 14345072, 14331915, 14318492, 
  14304765, 14290772, 14276499, 14262032, 14247286, 14232388, 14217276, 
  14201940, 14186487, 14170892, 14155165, 14139300, 14123337, 14107320, 
  14091194, 14075062, 14058870, 14042665, 14026474, 14010270, 13994094, 
  13977965, 13961928, 13945929, 13930042, 13914263, 13898575, 13883065, 
  13867692, 13852512, 13837497, 13822641, 13808014, 13793613, 13779485, 
  13765566, 13751897, 13738538, 13725470, 13712660, 13700192, 13688050, 
  13676206, 13664739, 13653598, 13642856, 13632462, 13622449, 13612838, 
  13603631, 13594802, 13586394, 13578398, 13570861, 13563714, 13557032, 
  13550785, 13545020, 13539644, 13534754, 13530320, 13526380, 13522847, 
  13519810, 13517229, 13515126, 13513512, 13512324, 13511621, 13511394, 
  13511632, 13512319, 13513503, 13515109, 13517181, 13519694, 13522676, 
  13526106, 13529970, 13534263, 13538995, 13544127, 13549682, 13555676, 
  13562030, 13568786, 13575935, 13583455, 13591356, 13599644, 13608247, 
  13617211, 13626487, 13636103, 13645997, 13656235, 13666733, 13677522, 
  13688566, 13699873, 13711434, 13723197, 13735197, 13747394, 13759814, 
  13772366, 13785122, 13798037, 13811071, 13824238, 13837522, 13850888, 
  13864364, 13877926, 13891520, 13905164, 13918843, 13932570, 13946251, 
  13959940, 13973659, 13987291, 14000892, 14014394, 14027884, 14041279, 
  14054542, 14067703, 14080745, 14093645, 14106374, 14118980, 14131402, 
  14143596, 14155626, 14167453, 14179047, 14190436, 14201553, 14212414, 
  14223015, 14233382, 14243481, 14253232, 14262695, 14271852, 14280729, 
  14289255, 14297484, 14305309, 14312836, 14320002, 14326802, 14333235, 
  14339355, 14345075, 14350416, 14355347, 14359940, 14364117, 14367895, 
  14371282, 14374266, 14376892, 14379119, 14380930, 14382347, 14383307, 
  14383909, 14384121, 14383922, 14383324, 14382315, 14380933, 14379164, 
  14376979, 14374433, 14371520, 14368163, 14364485, 14360437, 14355993, 
  14351232, 14346084, 14340639, 14334784, 14328630, 14322166, 14315376, 
  14308231, 14300797, 14293126, 14285110, 14276843, 14268258, 14259470, 
  14250401, 14241139, 14231603, 14221825, 14211825, 14201679, 14191333, 
  14180779, 14170062, 14159216, 14148233, 14137038, 14125773, 14114374, 
  14102922, 14091329, 14079656, 14067933, 14056164, 14044332, 14032506, 
  14020648, 14008757, 13996863, 13985012, 13973184, 13961370, 13949666, 
  13937963, 13926358, 13914852, 13903445, 13892110, 13880902, 13869843, 
  13858898, 13848124, 13837482, 13827057, 13816778, 13806678, 13796789, 
  13787096, 13777651, 13768416, 13759420, 13750644, 13742132, 13733891, 
  13725918, 13718176, 13710754, 13703627, 13696743, 13690203, 13683944, 
  13677985, 13672355, 13667066, 13662065, 13657402, 13653080, 13649084, 
  13645440, 13642151, 13639182, 13636566, 13634262, 13632357, 13630770, 
  13629556, 13628658, 13628138, 13627958, 13628112, 13628675, 13629543, 
  13630747, 13632328, 13634197, 13636448, 13639031, 13641923, 13645150, 
  13648740, 13652605, 13656785, 13661299, 13666092, 13671193, 13676587, 
  13682276, 13688242, 13694520, 13700997, 13707759, 13714815, 13722064, 
  13729603, 13737336, 13745302, 13753504, 13761891, 13770452, 13779244, 
  13788174, 13797258, 13806571, 13815997, 13825559, 13835254, 13845083, 
  13854999, 13865021, 13875152, 13885326, 13895658, 13905944, 13916329, 
  13926772, 13937224, 13947646, 13958185, 13968648, 13979113, 13989533, 
  13999911, 14010313, 14020570, 14030865, 14041056, 14051129, 14061122, 
  14071028, 14080821, 14090481, 14100016, 14109436, 14118711, 14127734, 
  14136685, 14145424, 14154007, 14162357, 14170555, 14178519, 14186258, 
  14193795, 14201122, 14208150, 14215026, 14221608, 14227966, 14233989, 
  14239830, 14245388, 14250625, 14255651, 14260337, 14264765, 14268900, 
  14272719, 14276254, 14279520, 14282473, 14285089, 14287430, 14289428, 
  14291134, 14292592, 14293622, 14294430, 14294865, 14295035, 14294887, 
  14294410, 14293629, 14292577, 14291148, 14289485, 14287474, 14285246, 
  14282635, 14279723, 14276564, 14273094, 14269360, 14265347, 14261114, 
  14256545, 14251705, 14246650, 14241348, 14235808, 14229961, 14223948, 
  14217644, 14211176, 14204460, 14197557, 14190449, 14183170, 14175684, 
  14168039, 14160231, 14152203, 14144095, 14135812, 14127402, 14118854, 
  14110172, 14101422, 14092525, 14083592, 14074553, 14065432, 14056227, 
  14047004, 14037733, 14028403, 14019060, 14009679, 14000307, 13990942, 
  13981623, 13972223, 13962912, 13953636, 13944425, 13935265, 13926112, 
  13917104, 13908137, 13899240, 13890518, 13881855, 13873317, 13864882, 
  13856590, 13848448, 13840469, 13832609, 13824938, 13817405, 13810058, 
  13802902, 13795936, 13789189, 13782659, 13776273, 13770175, 13764268, 
  13758543, 13753108, 13747872, 13742894, 13738157, 13733700, 13729447, 
  13725446, 13721781, 13718310, 13715151, 13712249, 13709584, 13707211, 
  13705116, 13703305, 13701777, 13700529, 13699503, 13698831, 13698399, 
  13698262, 13698394, 13698817, 13699544, 13700502, 13701758, 13703256, 
  13705063, 13707113, 13709459, 13712059, 13714892, 13717994, 13721361, 
  13724978, 13728832, 13732962, 13737279, 13741833, 13746647, 13751654, 
  13756913, 13762353, 13767996, 13773882, 13779913, 13786109, 13792557, 
  13799133, 13805905, 13812795, 13819857, 13827071, 13834414, 13841919, 
  13849521, 13857269, 13865067, 13872996, 13880986, 13889112, 13897272, 
  13905531, 13913829, 13922184, 13930574, 13938995, 13947436, 13955926, 
  13964418, 13972871, 13981367, 13989797, 13998236, 14006643, 14014998, 
  14023303, 14031529, 14039735, 14047843, 14055874, 14063826, 14071658, 
  14079385, 14087006, 14094525, 14101897, 14109170, 14116265, 14123225, 
  14130039, 14136695, 14143163, 14149501, 14155612, 14161546, 14167318, 
  14172865, 14178246, 14183396, 14188359, 14193089, 14197606, 14201906, 
  14205981, 14209818, 14213414, 14216816, 14219932, 14222818, 14225467, 
  14227856, 14230002, 14231906, 14233557, 14234950, 14236108, 14237014, 
  14237627, 14238033, 14238156, 14238017, 14237648, 14236995, 14236101, 
  14234991, 14233596, 14231974, 14230090, 14227971, 14225619, 14223029, 
  14220175, 14217147, 14213844, 14210316, 14206594, 14202659, 14198480, 
  14194115, 14189522, 14184769, 14179819, 14174662, 14169321, 14163810, 
  14158152, 14152304, 14146289, 14140144, 14133843, 14127388, 14120834, 
  14114107, 14107282, 14100360, 14093332, 14086177, 14078991, 14071658, 
  14064258, 14056805, 14049285, 14041698, 14034083, 14026428, 14018716, 
  14011035, 14003287, 13995544, 13987801, 13980078, 13972333, 13964632, 
  13956982, 13949339, 13941765, 13934198, 13926759, 13919342, 13912008, 
  13904724, 13897579, 13890502, 13883552, 13876648, 13869923, 13863297, 
  13856813, 13850419, 13844184, 13838098, 13832191, 13826439, 13820808, 
  13815359, 13810079, 13804996, 13800085, 13795358, 13790834, 13786514, 
  13782382, 13778427, 13774703, 13771208, 13767900, 13764802, 13761944, 
  13759293, 13756880, 13754667, 13752697, 13750941, 13749447, 13748161, 
  13747107, 13746285, 13745711, 13745377, 13745236, 13745345, 13745727, 
  13746311, 13747118, 13748135, 13749413, 13750915, 13752613, 13754579, 
  13756733, 13759119, 13761721, 13764543, 13767533, 13770779, 13774208, 
  13777800, 13781608, 13785661, 13789836, 13794212, 13798769, 13803511, 
  13808400, 13813468, 13818685, 13824048, 13829564, 13835239, 13841020, 
  13846942, 13852984, 13859108, 13865389, 13871770, 13878245, 13884774, 
  13891430, 13898143, 13904937, 13911797, 13918692, 13925688, 13932711, 
  13939733, 13946824, 13953910, 13961001, 13968131, 13975247, 13982371, 
  13989480, 13996563, 14003613, 14010630, 14017636, 14024565, 14031470, 
  14038280, 14045032, 14051724, 14058320, 14064832, 14071248, 14077572, 
  14083783, 14089908, 14095863, 14101746, 14107481, 14113079, 14118547, 
  14123847, 14129025, 14134039, 14138889, 14143589, 14148115, 14152466, 
  14156631, 14160621, 14164462, 14168085, 14171508, 14174755, 14177797, 
  14180635, 14183259, 14185753, 14187970, 14189986, 14191816, 14193430, 
  14194809, 14195980, 14196987, 14197716, 14198263, 14198603, 14198698, 
  14198582, 14198271, 14197740, 14196978, 14196015, 14194840, 14193473, 
  14191882, 14190081, 14188090, 14185877, 14183473, 14180892, 14178095, 
  14175133, 14171956, 14168596, 14165065, 14161367, 14157461, 14153432, 
  14149208, 14144875, 14140309, 14135665, 14130835, 14125858, 14120788, 
  14115548, 14110169, 14104748, 14099145, 14093421, 14087624, 14081725, 
  14075758, 14069686, 14063554, 14057311, 14051035, 14044687, 14038271, 
  14031852, 14025356, 14018836, 14012292, 14005705, 13999135, 13992565, 
  13985946, 13979346, 13972786, 13966218, 13959659, 13953157, 13946723, 
  13940287, 13933913, 13927594, 13921322, 13915135, 13909012, 13903003, 
  13897007, 13891187, 13885438, 13879777, 13874208, 13868773, 13863458, 
  13858261, 13853209, 13848287, 13843483, 13838805, 13834321, 13829976, 
  13825772, 13821769, 13817868, 13814122, 13810648, 13807270, 13804058, 
  13801069, 13798231, 13795622, 13793141, 13790899, 13788801, 13786905, 
  13785219, 13783731, 13782471, 13781353, 13780464, 13779762, 13779261, 
  13778956, 13778839, 13778926, 13779220, 13779747, 13780447, 13781328, 
  13782447, 13783678, 13785183, 13786860, 13788722, 13790755, 13792989, 
  13795396, 13797980, 13800757, 13803713, 13806804, 13810090, 13813567, 
  13817141, 13820909, 13824838, 13828883, 13833074, 13837421, 13841899, 
  13846535, 13851280, 13856160, 13861129, 13866230, 13871404, 13876699, 
  13882095, 13887596, 13893143, 13898812, 13904521, 13910305, 13916163, 
  13922050, 13927986, 13933999, 13940026, 13946125, 13952217, 13958349, 
  13964468, 13970603, 13976739, 13982863, 13989004, 13995094, 14001188, 
  14007241, 14013276, 14019265, 14025179, 14031066, 14036911, 14042673, 
  14048354, 14053995, 14059523, 14064989, 14070397, 14075649, 14080792, 
  14085871, 14090815, 14095671, 14100381, 14104982, 14109437, 14113802, 
  14118000, 14122024, 14125976, 14129736, 14133304, 14136779, 14140093, 
  14143205, 14146162, 14149010, 14151637, 14154123, 14156380, 14158486, 
  14160425, 14162193, 14163766, 14165162, 14166378, 14167388, 14168247, 
  14168885, 14169325, 14169630, 14169732, 14169654, 14169333, 14168866, 
  14168237, 14167406, 14166390, 14165201, 14163810, 14162234, 14160526, 
  14158622, 14156543, 14154285, 14151855, 14149258, 14146506, 14143636, 
  14140558, 14137330, 14133980, 14130461, 14126788, 14123012, 14119065, 
  14114981, 14110840, 14106483, 14102052, 14097529, 14092877, 14088126, 
  14083263, 14078268, 14073253, 14068144, 14062949, 14057661, 14052320, 
  14046892, 14041451, 14035920, 14030348, 14024736, 14019063, 14013416, 
  14007701, 14002002, 13996228, 13990496, 13984759, 13979023, 13973252, 
  13967564, 13961890, 13956229, 13950574, 13944984, 13939453, 13933907, 
  13928484, 13923057, 13917763, 13912455, 13907287, 13902156, 13897130, 
  13892203, 13887373, 13882609, 13877988, 13873434, 13869025, 13864725, 
  13860512, 13856466, 13852571, 13848770, 13845092, 13841579, 13838176, 
  13834952, 13831881, 13828901, 13826124, 13823511, 13821031, 13818735, 
  13816562, 13814590, 13812773, 13811147, 13809661, 13808359, 13807236, 
  13806281, 13805477, 13804864, 13804449, 13804164, 13804080, 13804153, 
  13804450, 13804860, 13805473, 13806269, 13807201, 13808340, 13809619, 
  13811098, 13812721, 13814485, 13816456, 13818593, 13820824, 13823256, 
  13825850, 13828570, 13831440, 13834468, 13837621, 13840939, 13844392, 
  13847911, 13851584, 13855419, 13859363, 13863408, 13867561, 13871810, 
  13876190, 13880664, 13885227, 13889865, 13894577, 13899433, 13904279, 
  13909249, 13914277, 13919357, 13924475, 13929671, 13934891, 13940168, 
  13945497, 13950802, 13956157, 13961514, 13966889, 13972329, 13977730, 
  13983103, 13988495, 13993865, 13999219, 14004518, 14009784, 14015080, 
  14020304, 14025516, 14030584, 14035691, 14040645, 14045634, 14050536, 
  14055298, 14060083, 14064692, 14069203, 14073704, 14078067, 14082280, 
  14086457, 14090522, 14094459, 14098247, 14101972, 14105523, 14108968, 
  14112265, 14115472, 14118532, 14121430, 14124216, 14126832, 14129301, 
  14131583, 14133758, 14135814, 14137666, 14139387, 14140890, 14142297, 
  14143508, 14144582, 14145486, 14146228, 14146819, 14147251, 14147460, 
  14147537, 14147471, 14147241, 14146832, 14146217, 14145520, 14144627, 
  14143551, 14142342, 14140940, 14139441, 14137733, 14135909, 14133917, 
  14131770, 14129489, 14127083, 14124509, 14121772, 14118963, 14115962, 
  14112863, 14109646, 14106243, 14102813, 14099207, 14095496, 14091683, 
  14087766, 14083773, 14079612, 14075433, 14071169, 14066745, 14062323, 
  14057762, 14053141, 14048482, 14043763, 14038949, 14034110, 14029246, 
  14024294, 14019377, 14014310, 14009320, 14004250, 13999170, 13994144, 
  13989014, 13983942, 13978855, 13973796, 13968722, 13963666, 13958657, 
  13953676, 13948720, 13943788, 13938876, 13934058, 13929274, 13924553, 
  13919919, 13915292, 13910773, 13906317, 13901950, 13897643, 13893431, 
  13889324, 13885326, 13881360, 13877568, 13873847, 13870233, 13866749, 
  13863386, 13860116, 13856999, 13853970, 13851129, 13848355, 13845798, 
  13843309, 13840983, 13838756, 13836711, 13834815, 13833066, 13831480, 
  13830033, 13828670, 13827518, 13826477, 13825680, 13824964, 13824418, 
  13824019, 13823769, 13823712, 13823768, 13824023, 13824404, 13824960, 
  13825629, 13826507, 13827523, 13828647, 13829930, 13831416, 13832974, 
  13834709, 13836582, 13838621, 13840773, 13843049, 13845498, 13848038, 
  13850769, 13853552, 13856498, 13859560, 13862660, 13866016, 13869394, 
  13872872, 13876490, 13880208, 13884027, 13887889, 13891870, 13895927, 
  13900092, 13904282, 13908572, 13912949, 13917329, 13921852, 13926351, 
  13930951, 13935541, 13940209, 13944894, 13949650, 13954383, 13959164, 
  13963959, 13968769, 13973589, 13978365, 13983205, 13987958, 13992766, 
  13997548, 14002292, 14007033, 14011749, 14016382, 14020977, 14025570, 
  14030127, 14034576, 14038998, 14043388, 14047659, 14051873, 14056002, 
  14060046, 14064035, 14067952, 14071737, 14075443, 14079072, 14082579, 
  14085973, 14089259, 14092510, 14095541, 14098509, 14101356, 14104100, 
  14106674, 14109196, 14111499, 14113720, 14115789, 14117765, 14119513, 
  14121192, 14122724, 14124109, 14125346, 14126434, 14127398, 14128166, 
  14128865, 14129427, 14129753, 14129949, 14130060, 14129959, 14129729, 
  14129382, 14128858, 14128237, 14127382, 14126461, 14125388, 14124131, 
  14122782, 14121257, 14119591, 14117828, 14115918, 14113853, 14111687, 
  14109392, 14106982, 14104422, 14101757, 14098978, 14096106, 14093085, 
  14089961, 14086777, 14083425, 14080005, 14076514, 14072921, 14069222, 
  14065471, 14061557, 14057648, 14053637, 14049582, 14045482, 14041272, 
  14037055, 14032761, 14028409, 14024008, 14019604, 14015149, 14010648, 
  14006117, 14001614, 13997083, 13992507, 13987966, 13983367, 13978806, 
  13974270, 13969707, 13965196, 13960707, 13956172, 13951757, 13947306, 
  13942948, 13938582, 13934322, 13930066, 13925868, 13921745, 13917674, 
  13913688, 13909715, 13905873, 13902084, 13898377, 13894816, 13891284, 
  13887821, 13884506, 13881239, 13878134, 13875113, 13872174, 13869376, 
  13866649, 13864070, 13861619, 13859257, 13857036, 13854946, 13852963, 
  13851125, 13849415, 13847842, 13846396, 13845051, 13843871, 13842832, 
  13841920, 13841174, 13840561, 13840064, 13839727, 13839487, 13839439, 
  13839484, 13839716, 13840054, 13840552, 13841168, 13841930, 13842841, 
  13843850, 13845034, 13846334, 13847764, 13849341, 13851019, 13852851, 
  13854778, 13856849, 13859052, 13861364, 13863760, 13866324, 13868942, 
  13871676, 13874581, 13877552, 13880571, 13883722, 13886976, 13890336, 
  13893738, 13897241, 13900848, 13904502, 13908214, 13912052, 13915895, 
  13919827, 13923817, 13927838, 13931926, 13936057, 13940252, 13944440, 
  13948682, 13952940, 13957222, 13961533, 13965859, 13970181, 13974567, 
  13978882, 13983219, 13987556, 13991866, 13996147, 14000462, 14004726, 
  14008972, 14013176, 14017361, 14021481, 14025562, 14029591, 14033565, 
  14037515, 14041383, 14045183, 14048938, 14052597, 14056205, 14059715, 
  14063171, 14066499, 14069775, 14072971, 14076038, 14079014, 14081900, 
  14084709, 14087359, 14089942, 14092398, 14094756, 14096976, 14099084, 
  14101091, 14102961, 14104729, 14106350, 14107879, 14109257, 14110508, 
  14111620, 14112604, 14113479, 14114196, 14114782, 14115271, 14115615, 
  14115792, 14115870, 14115814, 14115603, 14115265, 14114804, 14114218, 
  14113509, 14112635, 14111618, 14110521, 14109276, 14107915, 14106407, 
  14104812, 14103057, 14101213, 14099253, 14097187, 14094987, 14092686, 
  14090278, 14087732, 14085131, 14082404, 14079578, 14076647, 14073642, 
  14070560, 14067378, 14064111, 14060747, 14057362, 14053852, 14050293, 
  14046674, 14042982, 14039237, 14035450, 14031617, 14027711, 14023769, 
  14019790, 14015790, 14011760, 14007661, 14003603, 13999478, 13995376, 
  13991251, 13987109, 13982958, 13978810, 13974691, 13970571, 13966462, 
  13962351, 13958290, 13954274, 13950239, 13946257, 13942338, 13938413, 
  13934581, 13930789, 13927041, 13923335, 13919721, 13916125, 13912634, 
  13909204, 13905842, 13902574, 13899381, 13896251, 13893244, 13890290, 
  13887439, 13884679, 13882043, 13879472, 13877039, 13874689, 13872451, 
  13870306, 13868287, 13866398, 13864601, 13862913, 13861366, 13859933, 
  13858617, 13857407, 13856341, 13855398, 13854561, 13853863, 13853291, 
  13852853, 13852515, 13852351, 13852301, 13852361, 13852547, 13852876, 
  13853297, 13853863, 13854571, 13855385, 13856312, 13857379, 13858573, 
  13859873, 13861305, 13862843, 13864494, 13866241, 13868138, 13870130, 
  13872240, 13874433, 13876726, 13879118, 13881639, 13884266, 13886933, 
  13889709, 13892614, 13895573, 13898596, 13901688, 13904890, 13908155, 
  13911511, 13914897, 13918353, 13921889, 13925460, 13929095, 13932727, 
  13936481, 13940240, 13944051, 13947857, 13951744, 13955602, 13959512, 
  13963450, 13967367, 13971332, 13975260, 13979252, 13983200, 13987152, 
  13991086, 13995012, 13998915, 14002800, 14006664, 14010493, 14014295, 
  14018075, 14021785, 14025460, 14029103, 14032681, 14036202, 14039705, 
  14043111, 14046440, 14049717, 14052927, 14056097, 14059123, 14062084, 
  14064992, 14067800, 14070514, 14073145, 14075698, 14078123, 14080476, 
  14082759, 14084868, 14086898, 14088826, 14090672, 14092352, 14093975, 
  14095459, 14096851, 14098087, 14099226, 14100284, 14101179, 14101980, 
  14102626, 14103176, 14103601, 14103890, 14104075, 14104134, 14104084, 
  14103901, 14103619, 14103180, 14102632, 14101963, 14101185, 14100289, 
  14099292, 14098127, 14096895, 14095516, 14094048, 14092473, 14090757, 
  14088977, 14087098, 14085083, 14082967, 14080734, 14078460, 14076055, 
  14073570, 14070990, 14068324, 14065579, 14062740, 14059860, 14056846, 
  14053801, 14050672, 14047484, 14044241, 14040926, 14037546, 14034132, 
  14030655, 14027140, 14023572, 14019998, 14016347, 14012705, 14008992, 
  14005253, 14001506, 13997762, 13993995, 13990206, 13986411, 13982637, 
  13978849, 13975085, 13971323, 13967562, 13963792, 13960075, 13956395, 
  13952705, 13949063, 13945441, 13941909, 13938377, 13934886, 13931470, 
  13928071, 13924729, 13921484, 13918295, 13915141, 13912088, 13909080, 
  13906140, 13903282, 13900494, 13897799, 13895201, 13892665, 13890259, 
  13887923, 13885683, 13883518, 13881476, 13879523, 13877670, 13875940, 
  13874283, 13872734, 13871329, 13870024, 13868793, 13867683, 13866726, 
  13865840, 13865097, 13864462, 13863937, 13863530, 13863229, 13863083, 
  13862985, 13863044, 13863236, 13863542, 13863923, 13864463, 13865109, 
  13865833, 13866734, 13867686, 13868768, 13869964, 13871262, 13872670, 
  13874174, 13875799, 13877539, 13879371, 13881303, 13883294, 13885437, 
  13887628, 13889938, 13892300, 13894778, 13897355, 13899987, 13902702, 
  13905484, 13908342, 13911290, 13914276, 13917324, 13920437, 13923639, 
  13926856, 13930117, 13933472, 13936841, 13940263, 13943697, 13947213, 
  13950724, 13954277, 13957811, 13961396, 13964971, 13968612, 13972247, 
  13975881, 13979514, 13983152, 13986784, 13990388, 13993984, 13997581, 
  14001149, 14004715, 14008230, 14011722, 14015154, 14018620, 14021987, 
  14025317, 14028620, 14031864, 14035052, 14038161, 14041240, 14044274, 
  14047228, 14050108, 14052913, 14055658, 14058319, 14060900, 14063385, 
  14065782, 14068149, 14070396, 14072534, 14074605, 14076579, 14078425, 
  14080219, 14081920, 14083483, 14084948, 14086305, 14087577, 14088748, 
  14089774, 14090735, 14091581, 14092282, 14092910, 14093390, 14093800, 
  14094085, 14094250, 14094293, 14094234, 14094090, 14093815, 14093374, 
  14092952, 14092304, 14091593, 14090746, 14089822, 14088774, 14087611, 
  14086348, 14085011, 14083572, 14082000, 14080347, 14078615, 14076727, 
  14074806, 14072780, 14070660, 14068436, 14066138, 14063801, 14061340, 
  14058800, 14056179, 14053532, 14050761, 14047949, 14045090, 14042134, 
  14039142, 14036082, 14032951, 14029839, 14026610, 14023390, 14020121, 
  14016793, 14013469, 14010067, 14006674, 14003243, 13999791, 13996323, 
  13992877, 13989382, 13985878, 13982396, 13978911, 13975423, 13971941, 
  13968467, 13965046, 13961613, 13958186, 13954808, 13951470, 13948120, 
  13944858, 13941588, 13938383, 13935233, 13932136, 13929044, 13926016, 
  13923092, 13920157, 13917350, 13914570, 13911859, 13909247, 13906709, 
  13904213, 13901777, 13899462, 13897243, 13895081, 13892982, 13891009, 
  13889142, 13887316, 13885612, 13884030, 13882499, 13881061, 13879737, 
  13878556, 13877424, 13876417, 13875514, 13874700, 13874022, 13873419, 
  13872917, 13872563, 13872289, 13872127, 13872073, 13872106, 13872282, 
  13872561, 13872945, 13873444, 13874017, 13874704, 13875505, 13876411, 
  13877394, 13878482, 13879721, 13881014, 13882444, 13883938, 13885496, 
  13887169, 13888956, 13890819, 13892775, 13894829, 13896956, 13899158, 
  13901431, 13903787, 13906219, 13908725, 13911302, 13913968, 13916644, 
  13919426, 13922265, 13925159, 13928079, 13931057, 13934085, 13937150, 
  13940309, 13943436, 13946639, 13949857, 13953084, 13956378, 13959680, 
  13962989, 13966330, 13969673, 13973036, 13976368, 13979742, 13983085, 
  13986427, 13989782, 13993111, 13996478, 13999757, 14003020, 14006264, 
  14009503, 14012694, 14015884, 14019001, 14022096, 14025138, 14028116, 
  14031083, 14033994, 14036830, 14039631, 14042325, 14045012, 14047591, 
  14050145, 14052565, 14054980, 14057312, 14059538, 14061700, 14063768, 
  14065792, 14067694, 14069510, 14071247, 14072903, 14074444, 14075898, 
  14077249, 14078513, 14079686, 14080751, 14081724, 14082605, 14083377, 
  14084038, 14084627, 14085066, 14085483, 14085722, 14085874, 14085924, 
  14085860, 14085705, 14085456, 14085097, 14084614, 14084055, 14083405, 
  14082627, 14081789, 14080774, 14079737, 14078588, 14077322, 14075968, 
  14074525, 14072996, 14071376, 14069660, 14067874, 14065992, 14064009, 
  14061943, 14059818, 14057652, 14055385, 14053001, 14050622, 14048111, 
  14045578, 14042976, 14040304, 14037593, 14034793, 14031973, 14029112, 
  14026196, 14023192, 14020200, 14017153, 14014111, 14010994, 14007878, 
  14004702, 14001507, 13998311, 13995143, 13991907, 13988668, 13985440, 
  13982216, 13978947, 13975732, 13972519, 13969300, 13966104, 13962925, 
  13959752, 13956609, 13953501, 13950414, 13947394, 13944347, 13941385, 
  13938429, 13935583, 13932710, 13929927, 13927165, 13924507, 13921851, 
  13919296, 13916763, 13914332, 13911980, 13909660, 13907442, 13905257, 
  13903205, 13901175, 13899261, 13897423, 13895681, 13894008, 13892400, 
  13890945, 13889538, 13888189, 13886987, 13885821, 13884797, 13883886, 
  13883040, 13882294, 13881649, 13881111, 13880651, 13880312, 13880063, 
  13879913, 13879863, 13879900, 13880075, 13880313, 13880660, 13881096, 
  13881648, 13882263, 13883034, 13883858, 13884780, 13885817, 13886931, 
  13888138, 13889462, 13890865, 13892345, 13893893, 13895541, 13897266, 
  13899093, 13900977, 13902947, 13904994, 13907144, 13909316, 13911582, 
  13913930, 13916313, 13918752, 13921259, 13923879, 13926486, 13929151, 
  13931879, 13934651, 13937480, 13940336, 13943229, 13946170, 13949138, 
  13952083, 13955125, 13958210, 13961252, 13964315, 13967455, 13970552, 
  13973664, 13976789, 13979914, 13983054, 13986169, 13989239, 13992366, 
  13995428, 13998527, 14001559, 14004602, 14007617, 14010579, 14013486, 
  14016425, 14019319, 14022105, 14024905, 14027701, 14030360, 14032997, 
  14035594, 14038137, 14040599, 14043037, 14045375, 14047679, 14049878, 
  14052084, 14054101, 14056139, 14058069, 14059938, 14061712, 14063410, 
  14065029, 14066558, 14067984, 14069355, 14070609, 14071795, 14072891, 
  14073864, 14074797, 14075597, 14076315, 14076958, 14077496, 14077906, 
  14078256, 14078464, 14078660, 14078696, 14078623, 14078492, 14078242, 
  14077930, 14077474, 14076947, 14076348, 14075621, 14074814, 14073914, 
  14072928, 14071828, 14070681, 14069401, 14068067, 14066653, 14065150, 
  14063591, 14061864, 14060118, 14058285, 14056351, 14054409, 14052367, 
  14050225, 14048054, 14045843, 14043483, 14041113, 14038686, 14036200, 
  14033671, 14031070, 14028409, 14025765, 14023050, 14020273, 14017485, 
  14014634, 14011770, 14008888, 14005952, 14003027, 14000053, 13997109, 
  13994095, 13991096, 13988062, 13985071, 13982049, 13979044, 13976025, 
  13973024, 13970026, 13967048, 13964082, 13961143, 13958202, 13955310, 
  13952401, 13949593, 13946743, 13943993, 13941271, 13938536, 13935889, 
  13933297, 13930753, 13928243, 13925799, 13923387, 13921056, 13918772, 
  13916581, 13914424, 13912333, 13910319, 13908350, 13906509, 13904745, 
  13902991, 13901352, 13899827, 13898337, 13896917, 13895588, 13894403, 
  13893254, 13892200, 13891233, 13890352, 13889575, 13888878, 13888269, 
  13887741, 13887352, 13886985, 13886772, 13886651, 13886607, 13886622, 
  13886774, 13887019, 13887342, 13887764, 13888227, 13888856, 13889548, 
  13890345, 13891213, 13892155, 13893220, 13894357, 13895533, 13896860, 
  13898239, 13899700, 13901258, 13902857, 13904535, 13906298, 13908161, 
  13910071, 13912063, 13914096, 13916217, 13918366, 13920608, 13922937, 
  13925243, 13927680, 13930122, 13932622, 13935168, 13937772, 13940428, 
  13943084, 13945775, 13948498, 13951283, 13954086, 13956925, 13959768, 
  13962632, 13965484, 13968388, 13971274, 13974220, 13977145, 13980056, 
  13982967, 13985897, 13988748, 13991692, 13994575, 13997459, 14000289, 
  14003114, 14005924, 14008704, 14011457, 14014153, 14016867, 14019493, 
  14022119, 14024681, 14027191, 14029669, 14032109, 14034486, 14036781, 
  14039037, 14041265, 14043381, 14045453, 14047498, 14049432, 14051325, 
  14053125, 14054872, 14056489, 14058109, 14059620, 14061038, 14062401, 
  14063668, 14064845, 14065932, 14066980, 14067906, 14068742, 14069510, 
  14070194, 14070759, 14071279, 14071689, 14071978, 14072202, 14072335, 
  14072375, 14072360, 14072190, 14071994, 14071662, 14071265, 14070759, 
  14070176, 14069530, 14068755, 14067927, 14067006, 14066000, 14064876, 
  14063731, 14062490, 14061129, 14059700, 14058253, 14056643, 14055022, 
  14053317, 14051505, 14049662, 14047740, 14045724, 14043702, 14041584, 
  14039434, 14037216, 14034962, 14032623, 14030241, 14027823, 14025364, 
  14022868, 14020309, 14017695, 14015075, 14012460, 14009772, 14007055, 
  14004305, 14001576, 13998789, 13996002, 13993198, 13990426, 13987605, 
  13984734, 13981936, 13979098, 13976251, 13973454, 13970658, 13967852, 
  13965068, 13962306, 13959603, 13956865, 13954155, 13951501, 13948851, 
  13946270, 13943735, 13941167, 13938715, 13936267, 13933844, 13931519, 
  13929212, 13926961, 13924782, 13922648, 13920589, 13918563, 13916588, 
  13914757, 13912884, 13911135, 13909485, 13907837, 13906347, 13904849, 
  13903488, 13902171, 13900934, 13899787, 13898725, 13897765, 13896836, 
  13896027, 13895280, 13894620, 13894060, 13893593, 13893186, 13892896, 
  13892669, 13892552, 13892461, 13892552, 13892710, 13892885, 13893188, 
  13893567, 13894061, 13894621, 13895279, 13895997, 13896815, 13897706, 
  13898720, 13899761, 13900898, 13902123, 13903416, 13904785, 13906251, 
  13907725, 13909328, 13910991, 13912750, 13914537, 13916390, 13918321, 
  13920259, 13922308, 13924385, 13926544, 13928770, 13931021, 13933315, 
  13935669, 13938060, 13940489, 13942972, 13945478, 13948039, 13950582, 
  13953207, 13955810, 13958429, 13961125, 13963829, 13966520, 13969247, 
  13971927, 13974721, 13977439, 13980179, 13982907, 13985610, 13988349, 
  13991069, 13993791, 13996483, 13999170, 14001834, 14004423, 14007020, 
  14009618, 14012175, 14014710, 14017197, 14019665, 14022072, 14024404, 
  14026731, 14029020, 14031275, 14033441, 14035546, 14037631, 14039638, 
  14041550, 14043462, 14045304, 14047051, 14048774, 14050382, 14051962, 
  14053464, 14054843, 14056184, 14057494, 14058655, 14059801, 14060818, 
  14061737, 14062641, 14063451, 14064185, 14064785, 14065339, 14065791, 
  14066200, 14066472, 14066691, 14066831, 14066854, 14066822, 14066666, 
  14066490, 14066187, 14065751, 14065329, 14064790, 14064211, 14063459, 
  14062667, 14061790, 14060816, 14059785, 14058688, 14057535, 14056285, 
  14054932, 14053552, 14052070, 14050528, 14048910, 14047239, 14045521, 
  14043684, 14041829, 14039909, 14037946, 14035908, 14033830, 14031679, 
  14029498, 14027235, 14024999, 14022637, 14020308, 14017910, 14015497, 
  14013031, 14010520, 14007988, 14005456, 14002865, 14000296, 13997677, 
  13995096, 13992420, 13989776, 13987156, 13984475, 13981805, 13979135, 
  13976485, 13973879, 13971206, 13968601, 13965999, 13963379, 13960820, 
  13958252, 13955731, 13953199, 13950735, 13948312, 13945897, 13943495, 
  13941160, 13938889, 13936634, 13934415, 13932256, 13930138, 13928083, 
  13926104, 13924111, 13922201, 13920371, 13918635, 13916887, 13915260, 
  13913691, 13912184, 13910700, 13909351, 13908077, 13906831, 13905669, 
  13904586, 13903561, 13902638, 13901789, 13901010, 13900317, 13899703, 
  13899168, 13898715, 13898369, 13898064, 13897851, 13897739, 13897672, 
  13897747, 13897892, 13898074, 13898351, 13898733, 13899156, 13899706, 
  13900308, 13901033, 13901757, 13902626, 13903577, 13904543, 13905583, 
  13906731, 13907964, 13909285, 13910589, 13912028, 13913571, 13915099, 
  13916754, 13918416, 13920189, 13921980, 13923904, 13925777, 13927748, 
  13929776, 13931885, 13933987, 13936165, 13938355, 13940596, 13942896, 
  13945242, 13947584, 13949954, 13952406, 13954822, 13957290, 13959781, 
  13962321, 13964844, 13967382, 13969938, 13972545, 13975073, 13977674, 
  13980234, 13982864, 13985404, 13987985, 13990555, 13993058, 13995644, 
  13998159, 14000667, 14003144, 14005592, 14008028, 14010472, 14012768, 
  14015136, 14017461, 14019711, 14021988, 14024150, 14026299, 14028402, 
  14030440, 14032482, 14034414, 14036270, 14038129, 14039898, 14041642, 
  14043291, 14044915, 14046434, 14047913, 14049278, 14050638, 14051926, 
  14053096, 14054197, 14055269, 14056249, 14057150, 14057949, 14058748, 
  14059414, 14060015, 14060513, 14060941, 14061326, 14061603, 14061829, 
  14061902, 14061978, 14061908, 14061791, 14061593, 14061267, 14060941, 
  14060484, 14060009, 14059422, 14058760, 14058002, 14057182, 14056300, 
  14055328, 14054273, 14053147, 14051963, 14050700, 14049354, 14048009, 
  14046534, 14045041, 14043430, 14041844, 14040088, 14038311, 14036526, 
  14034681, 14032733, 14030790, 14028770, 14026726, 14024583, 14022456, 
  14020240, 14018024, 14015753, 14013495, 14011159, 14008806, 14006442, 
  14004015, 14001585, 13999162, 13996651, 13994246, 13991709, 13989234, 
  13986745, 13984203, 13981706, 13979229, 13976716, 13974226, 13971741, 
  13969260, 13966783, 13964302, 13961916, 13959495, 13957108, 13954714, 
  13952431, 13950072, 13947824, 13945540, 13943357, 13941180, 13939038, 
  13936961, 13934961, 13932928, 13930995, 13929116, 13927275, 13925496, 
  13923750, 13922082, 13920456, 13918895, 13917402, 13915985, 13914635, 
  13913339, 13912097, 13910893, 13909825, 13908827, 13907842, 13906967, 
  13906159, 13905477, 13904813, 13904203, 13903722, 13903298, 13902946, 
  13902664, 13902490, 13902331, 13902351, 13902357, 13902462, 13902648, 
  13902939, 13903304, 13903703, 13904249, 13904776, 13905446, 13906185, 
  13906971, 13907852, 13908771, 13909806, 13910879, 13912030, 13913252, 
  13914536, 13915886, 13917317, 13918729, 13920293, 13921897, 13923572, 
  13925314, 13927021, 13928879, 13930723, 13932639, 13934600, 13936610, 
  13938638, 13940718, 13942901, 13945037, 13947218, 13949435, 13951711, 
  13954013, 13956322, 13958638, 13961029, 13963374, 13965761, 13968174, 
  13970599, 13973039, 13975442, 13977921, 13980358, 13982736, 13985198, 
  13987611, 13990050, 13992465, 13994849, 13997238, 13999621, 14001968, 
  14004307, 14006634, 14008842, 14011139, 14013343, 14015502, 14017660, 
  14019746, 14021849, 14023840, 14025831, 14027750, 14029691, 14031494, 
  14033317, 14035052, 14036722, 14038364, 14039929, 14041413, 14042906, 
  14044288, 14045599, 14046882, 14048045, 14049195, 14050254, 14051263, 
  14052177, 14052990, 14053822, 14054553, 14055162, 14055715, 14056229, 
  14056617, 14057007, 14057227, 14057423, 14057532, 14057554, 14057493, 
  14057440, 14057194, 14056995, 14056647, 14056247, 14055737, 14055161, 
  14054550, 14053840, 14053056, 14052233, 14051303, 14050322, 14049267, 
  14048118, 14046941, 14045691, 14044388, 14042996, 14041557, 14040042, 
  14038529, 14036931, 14035247, 14033541, 14031764, 14029929, 14028082, 
  14026207, 14024221, 14022234, 14020210, 14018132, 14015992, 14013902, 
  14011733, 14009520, 14007274, 14005030, 14002761, 14000475, 13998151, 
  13995817, 13993492, 13991121, 13988783, 13986379, 13984020, 13981657, 
  13979315, 13976919, 13974562, 13972197, 13969865, 13967500, 13965195, 
  13962897, 13960596, 13958368, 13956068, 13953907, 13951681, 13949548, 
  13947396, 13945321, 13943277, 13941248, 13939314, 13937360, 13935477, 
  13933643, 13931794, 13930108, 13928395, 13926756, 13925165, 13923629, 
  13922158, 13920743, 13919413, 13918106, 13916881, 13915707, 13914623, 
  13913577, 13912607, 13911697, 13910870, 13910128, 13909422, 13908816, 
  13908224, 13907791, 13907382, 13907062, 13906800, 13906604, 13906524, 
  13906462, 13906497, 13906598, 13906821, 13907038, 13907367, 13907770, 
  13908266, 13908847, 13909439, 13910106, 13910850, 13911674, 13912559, 
  13913562, 13914596, 13915671, 13916833, 13918027, 13919323, 13920655, 
  13922060, 13923500, 13925026, 13926594, 13928221, 13929886, 13931613, 
  13933341, 13935187, 13937024, 13938963, 13940872, 13942854, 13944871, 
  13946931, 13949019, 13951120, 13953292, 13955449, 13957631, 13959841, 
  13962094, 13964319, 13966598, 13968876, 13971186, 13973451, 13975789, 
  13978089, 13980416, 13982727, 13985013, 13987316, 13989658, 13991889, 
  13994140, 13996445, 13998661, 14000923, 14003126, 14005301, 14007448, 
  14009570, 14011680, 14013759, 14015808, 14017784, 14019721, 14021671, 
  14023543, 14025383, 14027159, 14028913, 14030677, 14032284, 14033894, 
  14035390, 14036907, 14038369, 14039709, 14041065, 14042312, 14043478, 
  14044667, 14045741, 14046739, 14047660, 14048541, 14049354, 14050088, 
  14050764, 14051396, 14051883, 14052332, 14052764, 14053073, 14053311, 
  14053522, 14053612, 14053644, 14053625, 14053498, 14053315, 14053076, 
  14052778, 14052349, 14051917, 14051369, 14050762, 14050115, 14049355, 
  14048540, 14047668, 14046738, 14045753, 14044696, 14043560, 14042373, 
  14041129, 14039836, 14038464, 14037038, 14035553, 14034054, 14032457, 
  14030820, 14029151, 14027435, 14025685, 14023861, 14022004, 14020110, 
  14018183, 14016221, 14014219, 14012183, 14010150, 14008045, 14005914, 
  14003761, 14001619, 13999461, 13997265, 13995039, 13992815, 13990578, 
  13988336, 13986093, 13983849, 13981600, 13979347, 13977075, 13974819, 
  13972605, 13970360, 13968171, 13965968, 13963783, 13961614, 13959468, 
  13957335, 13955218, 13953148, 13951094, 13949092, 13947102, 13945139, 
  13943249, 13941368, 13939530, 13937715, 13935991, 13934296, 13932639, 
  13931024, 13929481, 13927961, 13926508, 13925107, 13923767, 13922472, 
  13921246, 13920073, 13918983, 13917939, 13916967, 13916024, 13915162, 
  13914375, 13913662, 13913010, 13912397, 13911882, 13911449, 13911063, 
  13910757, 13910515, 13910317, 13910227, 13910208, 13910218, 13910345, 
  13910522, 13910761, 13911053, 13911445, 13911896, 13912415, 13913005, 
  13913656, 13914376, 13915165, 13916007, 13916897, 13917897, 13918943, 
  13920023, 13921187, 13922416, 13923660, 13925005, 13926380, 13927827, 
  13929316, 13930856, 13932442, 13934063, 13935752, 13937475, 13939256, 
  13941041, 13942888, 13944790, 13946686, 13948642, 13950617, 13952647, 
  13954655, 13956752, 13958845, 13960909, 13963076, 13965216, 13967345, 
  13969521, 13971699, 13973873, 13976065, 13978250, 13980452, 13982648, 
  13984848, 13987052, 13989230, 13991408, 13993570, 13995717, 13997849, 
  13999971, 14002044, 14004137, 14006184, 14008193, 14010193, 14012167, 
  14014102, 14015985, 14017875, 14019692, 14021490, 14023236, 14024940, 
  14026591, 14028208, 14029775, 14031296, 14032765, 14034199, 14035547, 
  14036859, 14038104, 14039320, 14040486, 14041544, 14042565, 14043533, 
  14044403, 14045240, 14046014, 14046716, 14047358, 14047937, 14048449, 
  14048888, 14049263, 14049572, 14049800, 14049974, 14050092, 14050120, 
  14050084, 14049962, 14049787, 14049555, 14049278, 14048884, 14048432, 
  14047961, 14047349, 14046747, 14046036, 14045259, 14044439, 14043558, 
  14042605, 14041587, 14040524, 14039372, 14038193, 14036955, 14035650, 
  14034298, 14032907, 14031459, 14029937, 14028403, 14026816, 14025152, 
  14023482, 14021759, 14019973, 14018189, 14016367, 14014499, 14012593, 
  14010662, 14008701, 14006706, 14004672, 14002650, 14000600, 13998560, 
  13996430, 13994345, 13992229, 13990087, 13987961, 13985814, 13983698, 
  13981540, 13979400, 13977245, 13975101, 13972998, 13970875, 13968764, 
  13966672, 13964574, 13962522, 13960439, 13958446, 13956446, 13954465, 
  13952521, 13950616, 13948710, 13946835, 13945048, 13943218, 13941487, 
  13939815, 13938141, 13936498, 13934932, 13933395, 13931911, 13930490, 
  13929107, 13927776, 13926495, 13925259, 13924080, 13922988, 13921918, 
  13920932, 13919996, 13919128, 13918292, 13917577, 13916863, 13916244, 
  13915687, 13915192, 13914746, 13914382, 13914089, 13913842, 13913684, 
  13913606, 13913562, 13913592, 13913695, 13913838, 13914090, 13914382, 
  13914743, 13915168, 13915664, 13916222, 13916858, 13917539, 13918299, 
  13919109, 13919946, 13920896, 13921876, 13922927, 13924036, 13925206, 
  13926394, 13927694, 13928991, 13930376, 13931778, 13933227, 13934756, 
  13936339, 13937911, 13939560, 13941241, 13942951, 13944710, 13946499, 
  13948334, 13950207, 13952087, 13953989, 13955929, 13957896, 13959887, 
  13961890, 13963914, 13965964, 13968001, 13970082, 13972160, 13974235, 
  13976329, 13978427, 13980515, 13982599, 13984699, 13986787, 13988851, 
  13990941, 13992993, 13995032, 13997086, 13999086, 14001099, 14003059, 
  14005026, 14006943, 14008859, 14010730, 14012594, 14014384, 14016148, 
  14017906, 14019615, 14021288, 14022903, 14024475, 14026018, 14027516, 
  14028964, 14030371, 14031723, 14033018, 14034274, 14035448, 14036614, 
  14037694, 14038720, 14039695, 14040619, 14041470, 14042274, 14042996, 
  14043680, 14044291, 14044827, 14045273, 14045731, 14046078, 14046384, 
  14046597, 14046765, 14046884, 14046901, 14046853, 14046769, 14046581, 
  14046373, 14046090, 14045723, 14045318, 14044820, 14044289, 14043679, 
  14043004, 14042269, 14041473, 14040647, 14039746, 14038761, 14037748, 
  14036667, 14035537, 14034346, 14033114, 14031848, 14030477, 14029092, 
  14027656, 14026213, 14024672, 14023099, 14021516, 14019900, 14018186, 
  14016483, 14014699, 14012921, 14011122, 14009269, 14007390, 14005493, 
  14003576, 14001636, 13999684, 13997710, 13995725, 13993712, 13991679, 
  13989645, 13987633, 13985579, 13983543, 13981482, 13979452, 13977409, 
  13975345, 13973324, 13971293, 13969283, 13967295, 13965292, 13963329, 
  13961385, 13959448, 13957546, 13955664, 13953801, 13951967, 13950176, 
  13948408, 13946663, 13944957, 13943312, 13941642, 13940068, 13938518, 
  13937009, 13935564, 13934161, 13932786, 13931456, 13930173, 13928951, 
  13927814, 13926683, 13925629, 13924616, 13923670, 13922782, 13921954, 
  13921146, 13920436, 13919797, 13919186, 13918663, 13918161, 13917759, 
  13917422, 13917128, 13916872, 13916776, 13916648, 13916615, 13916654, 
  13916736, 13916917, 13917147, 13917431, 13917755, 13918177, 13918660, 
  13919174, 13919770, 13920405, 13921144, 13921927, 13922744, 13923613, 
  13924559, 13925592, 13926622, 13927746, 13928880, 13930105, 13931363, 
  13932651, 13934002, 13935403, 13936834, 13938359, 13939901, 13941447, 
  13943053, 13944679, 13946390, 13948076, 13949836, 13951598, 13953391, 
  13955247, 13957113, 13958964, 13960845, 13962784, 13964714, 13966683, 
  13968610, 13970611, 13972569, 13974578, 13976532, 13978539, 13980557, 
  13982548, 13984540, 13986541, 13988546, 13990503, 13992494, 13994456, 
  13996340, 13998303, 14000207, 14002082, 14003988, 14005816, 14007619, 
  14009416, 14011188, 14012921, 14014607, 14016247, 14017910, 14019501, 
  14021041, 14022552, 14024023, 14025491, 14026840, 14028166, 14029467, 
  14030705, 14031918, 14033032, 14034123, 14035155, 14036162, 14037089, 
  14037977, 14038794, 14039549, 14040245, 14040865, 14041473, 14041996, 
  14042453, 14042855, 14043205, 14043507, 14043687, 14043848, 14043938, 
  14043973, 14043952, 14043831, 14043705, 14043469, 14043191, 14042861, 
  14042470, 14041986, 14041467, 14040884, 14040263, 14039548, 14038805, 
  14037973, 14037127, 14036225, 14035210, 14034175, 14033107, 14031976, 
  14030790, 14029568, 14028289, 14026955, 14025600, 14024188, 14022746, 
  14021230, 14019708, 14018128, 14016508, 14014884, 14013192, 14011485, 
  14009772, 14007993, 14006215, 14004387, 14002576, 14000719, 13998830, 
  13996932, 13995055, 13993116, 13991193, 13989263, 13987321, 13985366, 
  13983423, 13981457, 13979468, 13977541, 13975586, 13973635, 13971731, 
  13969778, 13967888, 13965975, 13964096, 13962216, 13960391, 13958527, 
  13956753, 13954972, 13953205, 13951507, 13949796, 13948140, 13946522, 
  13944917, 13943351, 13941840, 13940370, 13938917, 13937524, 13936180, 
  13934857, 13933609, 13932391, 13931212, 13930109, 13929034, 13928003, 
  13927061, 13926169, 13925291, 13924496, 13923772, 13923068, 13922432, 
  13921881, 13921373, 13920923, 13920500, 13920148, 13919908, 13919694, 
  13919548, 13919436, 13919406, 13919437, 13919546, 13919672, 13919926, 
  13920191, 13920515, 13920909, 13921354, 13921861, 13922438, 13923068, 
  13923743, 13924476, 13925268, 13926127, 13927027, 13927990, 13928983, 
  13930046, 13931181, 13932313, 13933517, 13934755, 13936067, 13937398, 
  13938788, 13940187, 13941670, 13943150, 13944683, 13946287, 13947899, 
  13949519, 13951184, 13952900, 13954604, 13956373, 13958147, 13959921, 
  13961735, 13963574, 13965429, 13967309, 13969170, 13971057, 13972936, 
  13974861, 13976748, 13978683, 13980626, 13982507, 13984414, 13986324, 
  13988230, 13990131, 13992001, 13993885, 13995741, 13997575, 13999407, 
  14001217, 14002997, 14004768, 14006507, 14008196, 14009879, 14011556, 
  14013182, 14014781, 14016342, 14017881, 14019349, 14020797, 14022212, 
  14023582, 14024872, 14026172, 14027404, 14028599, 14029723, 14030825, 
  14031865, 14032864, 14033793, 14034699, 14035556, 14036314, 14037056, 
  14037720, 14038337, 14038891, 14039395, 14039840, 14040243, 14040530, 
  14040827, 14041038, 14041172, 14041253, 14041304, 14041268, 14041179, 
  14041025, 14040836, 14040544, 14040229, 14039843, 14039406, 14038899, 
  14038350, 14037726, 14037077, 14036358, 14035566, 14034722, 14033856, 
  14032924, 14031911, 14030897, 14029788, 14028666, 14027504, 14026285, 
  14025000, 14023691, 14022344, 14020959, 14019495, 14018036, 14016531, 
  14015006, 14013434, 14011810, 14010216, 14008529, 14006836, 14005110, 
  14003371, 14001654, 13999869, 13998069, 13996240, 13994436, 13992595, 
  13990740, 13988882, 13987021, 13985157, 13983292, 13981408, 13979550, 
  13977677, 13975778, 13973926, 13972072, 13970235, 13968410, 13966600, 
  13964786, 13963000, 13961242, 13959489, 13957776, 13956046, 13954375, 
  13952730, 13951117, 13949507, 13947951, 13946436, 13944935, 13943457, 
  13942064, 13940683, 13939325, 13938039, 13936806, 13935593, 13934401, 
  13933300, 13932227, 13931186, 13930224, 13929314, 13928446, 13927612, 
  13926855, 13926137, 13925482, 13924860, 13924335, 13923844, 13923408, 
  13923056, 13922714, 13922475, 13922249, 13922123, 13922029, 13921984, 
  13921995, 13922105, 13922254, 13922439, 13922728, 13923044, 13923422, 
  13923836, 13924324, 13924872, 13925490, 13926109, 13926852, 13927592, 
  13928405, 13929275, 13930169, 13931156, 13932189, 13933225, 13934371, 
  13935509, 13936691, 13937917, 13939210, 13940546, 13941901, 13943317, 
  13944761, 13946235, 13947727, 13949278, 13950843, 13952424, 13954062, 
  13955706, 13957392, 13959125, 13960800, 13962539, 13964329, 13966089, 
  13967894, 13969665, 13971480, 13973301, 13975125, 13976960, 13978811, 
  13980623, 13982464, 13984305, 13986137, 13987941, 13989766, 13991569, 
  13993372, 13995169, 13996906, 13998655, 14000393, 14002103, 14003813, 
  14005454, 14007104, 14008751, 14010320, 14011884, 14013410, 14014911, 
  14016360, 14017783, 14019165, 14020534, 14021839, 14023116, 14024338, 
  14025535, 14026649, 14027763, 14028819, 14029798, 14030765, 14031671, 
  14032491, 14033311, 14034057, 14034758, 14035404, 14035977, 14036538, 
  14037006, 14037436, 14037824, 14038103, 14038374, 14038583, 14038706, 
  14038800, 14038822, 14038800, 14038736, 14038551, 14038366, 14038137, 
  14037816, 14037463, 14037013, 14036530, 14036002, 14035427, 14034802, 
  14034082, 14033334, 14032539, 14031692, 14030788, 14029853, 14028844, 
  14027815, 14026735, 14025593, 14024430, 14023229, 14021957, 14020668, 
  14019306, 14017931, 14016538, 14015103, 14013611, 14012093, 14010576, 
  14008987, 14007396, 14005786, 14004131, 14002472, 14000812, 13999084, 
  13997369, 13995633, 13993894, 13992113, 13990331, 13988561, 13986768, 
  13984955, 13983179, 13981377, 13979618, 13977813, 13976022, 13974204, 
  13972430, 13970644, 13968904, 13967179, 13965439, 13963728, 13962006, 
  13960343, 13958681, 13957033, 13955427, 13953862, 13952303, 13950750, 
  13949292, 13947802, 13946352, 13944977, 13943602, 13942296, 13941002, 
  13939748, 13938565, 13937408, 13936261, 13935203, 13934176, 13933197, 
  13932242, 13931368, 13930547, 13929750, 13929009, 13928326, 13927713, 
  13927117, 13926605, 13926151, 13925725, 13925333, 13925062, 13924796, 
  13924593, 13924465, 13924374, 13924369, 13924365, 13924465, 13924614, 
  13924794, 13925044, 13925326, 13925724, 13926131, 13926631, 13927109, 
  13927711, 13928313, 13929011, 13929742, 13930513, 13931344, 13932208, 
  13933155, 13934138, 13935153, 13936205, 13937343, 13938482, 13939641, 
  13940871, 13942173, 13943478, 13944808, 13946205, 13947619, 13949055, 
  13950567, 13952048, 13953576, 13955153, 13956758, 13958337, 13959997, 
  13961642, 13963308, 13964986, 13966703, 13968400, 13970171, 13971877, 
  13973629, 13975385, 13977149, 13978876, 13980669, 13982440, 13984177, 
  13985942, 13987697, 13989426, 13991163, 13992868, 13994600, 13996311, 
  13997976, 13999640, 14001286, 14002916, 14004514, 14006087, 14007629, 
  14009171, 14010683, 14012145, 14013567, 14014971, 14016328, 14017695, 
  14018982>>

(* sine integral at j/64 * 2^24, j = 0..1280 *)
SiTab == <<
  0, 262140, 524260, 786336, 1048348, 1310276, 1572096, 1833789, 2095332, 
  2356706, 2617887, 2878856, 3139590, 3400070, 3660274, 3920180, 4179768, 
  4439016, 4697905, 4956413, 5214519, 5472202, 5729442, 5986219, 6242511, 
  6498298, 6753560, 7008277, 7262427, 7515992, 7768950, 8021283, 8272970, 
  8523991, 8774326, 9023956, 9272862, 9521024, 9768423, 10015039, 10260853, 
  10505848, 10750003, 10993300, 11235720, 11477245, 11717857, 11957538, 
  12196268, 12434032, 12670810, 12906585, 13141339, 13375056, 13607718, 
  13839307, 14069808, 14299203, 14527476, 14754611, 14980590, 15205399, 
  15429020, 15651439, 15872640, 16092607, 16311326, 16528780, 16744956, 
  16959839, 17173414, 17385666, 17596583, 17806149, 18014351, 18221176, 
  18426610, 18630640, 18833254, 19034437, 19234179, 19432466, 19629287, 
  19824629, 20018481, 20210832, 20401669, 20590982, 20778761, 20964994, 
  21149671, 21332781, 21514316, 21694265, 21872618, 22049367, 22224502, 
  22398014, 22569895, 22740136, 22908729, 23075666, 23240939, 23404542, 
  23566466, 23726704, 23885251, 24042098, 24197241, 24350672, 24502386, 
  24652378, 24800641, 24947172, 25091964, 25235013, 25376315, 25515866, 
  25653661, 25789697, 25923970, 26056477, 26187216, 26316183, 26443375, 
  26568791, 26692428, 26814285, 26934360, 27052652, 27169159, 27283881, 
  27396816, 27507966, 27617328, 27724904, 27830694, 27934699, 28036918, 
  28137354, 28236007, 28332878, 28427970, 28521285, 28612824, 28702590, 
  28790585, 28876813, 28961277, 29043979, 29124923, 29204113, 29281553, 
  29357247, 29431200, 29503416, 29573900, 29642656, 29709691, 29775009, 
  29838617, 29900520, 29960724, 30019236, 30076062, 30131209, 30184683, 
  30236493, 30286644, 30335145, 30382004, 30427228, 30470825, 30512803, 
  30553172, 30591940, 30629115, 30664706, 30698724, 30731177, 30762074, 
  30791426, 30819242, 30845533, 30870308, 30893579, 30915355, 30935647, 
  30954467, 30971825, 30987733, 31002202, 31015243, 31026868, 31037089, 
  31045918, 31053367, 31059449, 31064175, 31067558, 31069610, 31070345, 
  31069776, 31067915, 31064776, 31060371, 31054715, 31047820, 31039701, 
  31030371, 31019844, 31008133, 30995254, 30981219, 30966044, 30949742, 
  30932328, 30913816, 30894222, 30873559, 30851843, 30829088, 30805309, 
  30780522, 30754741, 30727981, 30700258, 30671586, 30641982, 30611460, 
  30580036, 30547725, 30514543, 30480506, 30445629, 30409927, 30373417, 
  30336113, 30298033, 30259191, 30219603, 30179286, 30138255, 30096526, 
  30054114, 30011036, 29967308, 29922945, 29877964, 29832380, 29786209, 
  29739468, 29692171, 29644336, 29595977, 29547111, 29497754, 29447921, 
  29397628, 29346891, 29295726, 29244149, 29192175, 29139819, 29087098, 
  29034028, 28980622, 28926898, 28872871, 28818555, 28763967, 28709121, 
  28654034, 28598719, 28543192, 28487469, 28431563, 28375491, 28319267, 
  28262906, 28206421, 28149829, 28093144, 28036379, 27979550, 27922670, 
  27865755, 27808817, 27751871, 27694931, 27638011, 27581124, 27524284, 
  27467504, 27410799, 27354180, 27297662, 27241257, 27184979, 27128840, 
  27072853, 27017031, 26961386, 26905930, 26850676, 26795636, 26740821, 
  26686244, 26631917, 26577851, 26524057, 26470547, 26417332, 26364423, 
  26311831, 26259567, 26207642, 26156065, 26104848, 26054000, 26003531, 
  25953452, 25903773, 25854502, 25805650, 25757225, 25709237, 25661694, 
  25614607, 25567983, 25521830, 25476158, 25430974, 25386287, 25342104, 
  25298434, 25255283, 25212659, 25170570, 25129022, 25088023, 25047579, 
  25007696, 24968382, 24929642, 24891483, 24853910, 24816930, 24780547, 
  24744768, 24709597, 24675040, 24641101, 24607786, 24575098, 24543043, 
  24511624, 24480846, 24450712, 24421227, 24392393, 24364215, 24336695, 
  24309837, 24283643, 24258116, 24233260, 24209075, 24185564, 24162730, 
  24140575, 24119099, 24098305, 24078194, 24058767, 24040026, 24021971, 
  24004602, 23987922, 23971929, 23956625, 23942009, 23928082, 23914842, 
  23902291, 23890426, 23879249, 23868757, 23858949, 23849826, 23841385, 
  23833624, 23826543, 23820140, 23814412, 23809358, 23804975, 23801262, 
  23798215, 23795832, 23794111, 23793048, 23792640, 23792885, 23793779, 
  23795318, 23797500, 23800320, 23803774, 23807859, 23812570, 23817903, 
  23823855, 23830420, 23837594, 23845372, 23853750, 23862722, 23872284, 
  23882430, 23893155, 23904454, 23916321, 23928751, 23941737, 23955275, 
  23969359, 23983981, 23999137, 24014820, 24031024, 24047742, 24064968, 
  24082696, 24100918, 24119629, 24138821, 24158487, 24178620, 24199214, 
  24220262, 24241755, 24263687, 24286051, 24308839, 24332043, 24355657, 
  24379672, 24404082, 24428877, 24454051, 24479595, 24505503, 24531765, 
  24558374, 24585322, 24612601, 24640202, 24668118, 24696341, 24724862, 
  24753673, 24782765, 24812131, 24841762, 24871650, 24901786, 24932162, 
  24962770, 24993600, 25024645, 25055897, 25087345, 25118984, 25150802, 
  25182793, 25214947, 25247257, 25279713, 25312307, 25345030, 25377875, 
  25410832, 25443893, 25477050, 25510293, 25543616, 25577008, 25610462, 
  25643969, 25677522, 25711111, 25744728, 25778365, 25812014, 25845666, 
  25879314, 25912948, 25946562, 25980146, 26013693, 26047194, 26080642, 
  26114030, 26147347, 26180588, 26213745, 26246808, 26279772, 26312628, 
  26345368, 26377985, 26410472, 26442821, 26475025, 26507077, 26538969, 
  26570694, 26602245, 26633616, 26664798, 26695786, 26726572, 26757150, 
  26787513, 26817654, 26847568, 26877247, 26906685, 26935876, 26964814, 
  26993493, 27021906, 27050048, 27077913, 27105496, 27132789, 27159789, 
  27186489, 27212884, 27238969, 27264738, 27290187, 27315310, 27340103, 
  27364560, 27388677, 27412449, 27435873, 27458942, 27481653, 27504003, 
  27525986, 27547598, 27568836, 27589696, 27610174, 27630266, 27649970, 
  27669281, 27688196, 27706712, 27724826, 27742536, 27759837, 27776728, 
  27793205, 27809267, 27824910, 27840132, 27854932, 27869306, 27883254, 
  27896773, 27909860, 27922516, 27934737, 27946523, 27957872, 27968783, 
  27979254, 27989286, 27998876, 28008024, 28016729, 28024991, 28032809, 
  28040182, 28047112, 28053596, 28059636, 28065231, 28070381, 28075087, 
  28079349, 28083167, 28086542, 28089475, 28091966, 28094017, 28095628, 
  28096800, 28097535, 28097833, 28097697, 28097127, 28096125, 28094693, 
  28092833, 28090547, 28087835, 28084702, 28081147, 28077175, 28072787, 
  28067986, 28062773, 28057153, 28051127, 28044698, 28037869, 28030643, 
  28023024, 28015013, 28006615, 27997833, 27988670, 27979129, 27969214, 
  27958929, 27948277, 27937262, 27925889, 27914160, 27902080, 27889652, 
  27876882, 27863773, 27850329, 27836556, 27822456, 27808035, 27793297, 
  27778246, 27762888, 27747227, 27731268, 27715016, 27698475, 27681650, 
  27664547, 27647170, 27629524, 27611616, 27593449, 27575028, 27556361, 
  27537450, 27518303, 27498924, 27479319, 27459492, 27439451, 27419200, 
  27398744, 27378090, 27357243, 27336208, 27314992, 27293600, 27272038, 
  27250312, 27228427, 27206389, 27184204, 27161877, 27139416, 27116825, 
  27094111, 27071279, 27048335, 27025285, 27002136, 26978893, 26955562, 
  26932148, 26908659, 26885099, 26861475, 26837793, 26814059, 26790278, 
  26766457, 26742602, 26718717, 26694810, 26670887, 26646952, 26623012, 
  26599073, 26575141, 26551221, 26527320, 26503442, 26479594, 26455782, 
  26432011, 26408286, 26384615, 26361001, 26337451, 26313971, 26290565, 
  26267240, 26244000, 26220852, 26197800, 26174850, 26152008, 26129278, 
  26106666, 26084177, 26061816, 26039588, 26017498, 25995551, 25973753, 
  25952108, 25930621, 25909297, 25888140, 25867155, 25846347, 25825721, 
  25805281, 25785031, 25764976, 25745120, 25725468, 25706024, 25686791, 
  25667775, 25648979, 25630407, 25612063, 25593951, 25576074, 25558437, 
  25541044, 25523896, 25507000, 25490356, 25473970, 25457844, 25441982, 
  25426386, 25411061, 25396008, 25381231, 25366733, 25352516, 25338583, 
  25324938, 25311582, 25298517, 25285748, 25273275, 25261101, 25249228, 
  25237658, 25226394, 25215437, 25204789, 25194452, 25184428, 25174718, 
  25165324, 25156247, 25147489, 25139051, 25130934, 25123140, 25115669, 
  25108523, 25101702, 25095208, 25089040, 25083200, 25077689, 25072506, 
  25067652, 25063128, 25058934, 25055070, 25051536, 25048332, 25045458, 
  25042915, 25040701, 25038816, 25037261, 25036034, 25035136, 25034565, 
  25034321, 25034403, 25034811, 25035543, 25036598, 25037976, 25039675, 
  25041694, 25044031, 25046686, 25049657, 25052943, 25056541, 25060451, 
  25064670, 25069197, 25074030, 25079167, 25084605, 25090344, 25096380, 
  25102713, 25109338, 25116254, 25123459, 25130950, 25138725, 25146781, 
  25155115, 25163726, 25172609, 25181762, 25191182, 25200867, 25210813, 
  25221017, 25231477, 25242189, 25253149, 25264355, 25275803, 25287490, 
  25299413, 25311567, 25323950, 25336558, 25349387, 25362434, 25375695, 
  25389166, 25402844, 25416724, 25430803, 25445077, 25459542, 25474194, 
  25489029, 25504043, 25519232, 25534591, 25550117, 25565806, 25581652, 
  25597653, 25613803, 25630099, 25646536, 25663110, 25679817, 25696651, 
  25713609, 25730687, 25747879, 25765182, 25782590, 25800100, 25817707, 
  25835406, 25853194, 25871064, 25889014, 25907037, 25925130, 25943289, 
  25961508, 25979783, 25998109, 26016482, 26034897, 26053350, 26071836, 
  26090351, 26108889, 26127447, 26146019, 26164601, 26183189, 26201779, 
  26220364, 26238942, 26257507, 26276056, 26294582, 26313083, 26331554, 
  26349989, 26368385, 26386738, 26405043, 26423295, 26441490, 26459625, 
  26477694, 26495693, 26513619, 26531466, 26549231, 26566910, 26584499, 
  26601992, 26619387, 26636680, 26653866, 26670941, 26687901, 26704743, 
  26721463, 26738056, 26754520, 26770850, 26787042, 26803094, 26819001, 
  26834760, 26850367, 26865819, 26881112, 26896243, 26911209, 26926007, 
  26940632, 26955082, 26969354, 26983445, 26997351, 27011069, 27024598, 
  27037932, 27051071, 27064011, 27076750, 27089283, 27101610, 27113728, 
  27125633, 27137324, 27148798, 27160052, 27171085, 27181895, 27192478, 
  27202833, 27212958, 27222851, 27232510, 27241933, 27251118, 27260063, 
  27268768, 27277230, 27285447, 27293418, 27301142, 27308618, 27315843, 
  27322817, 27329539, 27336007, 27342221, 27348178, 27353880, 27359324, 
  27364509, 27369436, 27374103, 27378510, 27382655, 27386540, 27390163, 
  27393524, 27396622, 27399458, 27402031, 27404341, 27406389, 27408173, 
  27409695, 27410954, 27411950, 27412685, 27413157, 27413369, 27413319, 
  27413009, 27412439, 27411610, 27410523, 27409178, 27407576, 27405719, 
  27403606, 27401239, 27398620, 27395749, 27392627, 27389256, 27385637, 
  27381772, 27377661, 27373307, 27368711, 27363874, 27358798, 27353484, 
  27347936, 27342154, 27336140, 27329896, 27323424, 27316727, 27309805, 
  27302662, 27295300, 27287720, 27279925, 27271918, 27263700, 27255274, 
  27246643, 27237809, 27228774, 27219542, 27210114, 27200494, 27190684, 
  27180687, 27170506, 27160143, 27149602, 27138885, 27127995, 27116935, 
  27105709, 27094319, 27082769, 27071061, 27059199, 27047186, 27035025, 
  27022719, 27010272, 26997687, 26984967, 26972115, 26959136, 26946032, 
  26932807, 26919464, 26906007, 26892439, 26878764, 26864985, 26851106, 
  26837131, 26823062, 26808904, 26794661, 26780335, 26765930, 26751451, 
  26736901, 26722283, 26707602, 26692860, 26678062, 26663211, 26648312, 
  26633367, 26618381, 26603356, 26588298, 26573210, 26558095, 26542957, 
  26527800, 26512628, 26497444, 26482252, 26467056, 26451859, 26436666, 
  26421479, 26406304, 26391142, 26375999, 26360877, 26345780, 26330713, 
  26315677, 26300679, 26285719, 26270804, 26255935, 26241116, 26226351, 
  26211644, 26196998, 26182416, 26167902, 26153460, 26139092, 26124802, 
  26110593, 26096470, 26082434, 26068489, 26054639, 26040887, 26027235, 
  26013688, 26000248, 25986918, 25973701, 25960601, 25947620, 25934761, 
  25922028, 25909422, 25896948, 25884607, 25872403, 25860338, 25848415, 
  25836637, 25825006, 25813525, 25802196, 25791022, 25780006, 25769149, 
  25758455, 25747924, 25737561, 25727366, 25717343, 25707493, 25697818, 
  25688321, 25679004, 25669867, 25660915, 25652147, 25643567, 25635175, 
  25626974, 25618965, 25611150, 25603530, 25596108, 25588883, 25581859, 
  25575036, 25568415, 25561998, 25555787, 25549781, 25543983, 25538393, 
  25533012, 25527842, 25522884, 25518137, 25513603, 25509283, 25505177, 
  25501286, 25497611, 25494152, 25490909, 25487884, 25485076, 25482485, 
  25480113, 25477959, 25476023, 25474305, 25472806, 25471526, 25470464, 
  25469621, 25468995, 25468588, 25468399, 25468427, 25468672, 25469133, 
  25469811, 25470704, 25471813, 25473136, 25474672, 25476422, 25478384, 
  25480558, 25482942, 25485535, 25488337, 25491347, 25494564, 25497986, 
  25501612, 25505441, 25509472, 25513704, 25518134, 25522763, 25527587, 
  25532606, 25537819, 25543223, 25548817, 25554600, 25560569, 25566723, 
  25573060, 25579578, 25586276, 25593151, 25600201, 25607425, 25614820, 
  25622385, 25630117, 25638014, 25646074, 25654294, 25662673, 25671208, 
  25679896, 25688736, 25697725, 25706861, 25716140, 25725561, 25735122, 
  25744818, 25754649, 25764611, 25774702, 25784919, 25795259, 25805719, 
  25816298, 25826992, 25837798, 25848713, 25859735, 25870861, 25882088, 
  25893413, 25904833, 25916345, 25927947, 25939635, 25951406, 25963257, 
  25975185>>

(* tan(j/1024) * 2^24, j = 0..1024 *)
TanX == <<
  0, 16384, 32768, 49152, 65536, 81921, 98305, 114690, 131075, 147460, 
  163845, 180231, 196617, 213003, 229390, 245778, 262165, 278554, 294942, 
  311332, 327722, 344112, 360503, 376895, 393288, 409681, 426076, 442471, 
  458866, 475263, 491661, 508059, 524459, 540859, 557261, 573663, 590067, 
  606472, 622878, 639285, 655694, 672103, 688514, 704926, 721340, 737755, 
  754171, 770589, 787009, 803429, 819852, 836276, 852701, 869128, 885557, 
  901988, 918420, 934854, 951290, 967727, 984167, 1000608, 1017051, 
  1033496, 1049943, 1066393, 1082844, 1099297, 1115753, 1132210, 1148670, 
  1165132, 1181596, 1198062, 1214531, 1231002, 1247475, 1263951, 1280429, 
  1296910, 1313393, 1329879, 1346367, 1362858, 1379351, 1395847, 1412346, 
  1428848, 1445352, 1461859, 1478369, 1494881, 1511397, 1527915, 1544437, 
  1560961, 1577488, 1594019, 1610552, 1627089, 1643628, 1660171, 1676717, 
  1693266, 1709819, 1726375, 1742934, 1759496, 1776062, 1792632, 1809204, 
  1825781, 1842361, 1858944, 1875531, 1892121, 1908716, 1925314, 1941915, 
  1958521, 1975130, 1991743, 2008360, 2024980, 2041605, 2058234, 2074866, 
  2091503, 2108143, 2124788, 2141437, 2158090, 2174747, 2191409, 2208074, 
  2224744, 2241418, 2258097, 2274780, 2291467, 2308159, 2324856, 2341557, 
  2358262, 2374972, 2391687, 2408406, 2425130, 2441859, 2458592, 2475330, 
  2492073, 2508821, 2525574, 2542332, 2559095, 2575862, 2592635, 2609413, 
  2626196, 2642984, 2659777, 2676575, 2693379, 2710188, 2727002, 2743822, 
  2760647, 2777477, 2794313, 2811154, 2828001, 2844853, 2861711, 2878574, 
  2895443, 2912318, 2929199, 2946085, 2962977, 2979875, 2996779, 3013689, 
  3030604, 3047526, 3064454, 3081387, 3098327, 3115273, 3132225, 3149183, 
  3166147, 3183118, 3200095, 3217078, 3234068, 3251064, 3268066, 3285075, 
  3302090, 3319112, 3336141, 3353176, 3370218, 3387266, 3404322, 3421384, 
  3438452, 3455528, 3472610, 3489700, 3506796, 3523900, 3541010, 3558127, 
  3575252, 3592383, 3609522, 3626668, 3643821, 3660982, 3678150, 3695325, 
  3712507, 3729697, 3746895, 3764100, 3781312, 3798532, 3815760, 3832995, 
  3850238, 3867489, 3884748, 3902014, 3919288, 3936570, 3953860, 3971158, 
  3988464, 4005778, 4023100, 4040430, 4057769, 4075115, 4092470, 4109833, 
  4127204, 4144584, 4161972, 4179368, 4196773, 4214187, 4231609, 4249039, 
  4266479, 4283927, 4301383, 4318848, 4336323, 4353806, 4371297, 4388798, 
  4406308, 4423826, 4441354, 4458891, 4476437, 4493991, 4511556, 4529129, 
  4546712, 4564304, 4581905, 4599516, 4617136, 4634765, 4652405, 4670053, 
  4687712, 4705379, 4723057, 4740744, 4758441, 4776148, 4793865, 4811592, 
  4829328, 4847075, 4864831, 4882598, 4900375, 4918162, 4935959, 4953766, 
  4971583, 4989411, 5007250, 5025098, 5042957, 5060827, 5078707, 5096597, 
  5114499, 5132411, 5150333, 5168267, 5186211, 5204166, 5222132, 5240109, 
  5258097, 5276095, 5294105, 5312126, 5330158, 5348202, 5366256, 5384322, 
  5402399, 5420488, 5438588, 5456699, 5474822, 5492956, 5511103, 5529260, 
  5547430, 5565611, 5583804, 5602009, 5620225, 5638454, 5656694, 5674947, 
  5693212, 5711488, 5729777, 5748078, 5766392, 5784717, 5803055, 5821406, 
  5839768, 5858144, 5876532, 5894932, 5913345, 5931771, 5950209, 5968660, 
  5987124, 6005601, 6024091, 6042594, 6061110, 6079639, 6098181, 6116736, 
  6135305, 6153886, 6172481, 6191090, 6209711, 6228347, 6246995, 6265658, 
  6284334, 6303023, 6321727, 6340444, 6359175, 6377920, 6396678, 6415451, 
  6434238, 6453039, 6471854, 6490683, 6509526, 6528384, 6547256, 6566142, 
  6585043, 6603958, 6622888, 6641832, 6660791, 6679765, 6698754, 6717757, 
  6736776, 6755809, 6774857, 6793920, 6812998, 6832092, 6851200, 6870324, 
  6889463, 6908618, 6927788, 6946973, 6966174, 6985390, 7004623, 7023870, 
  7043134, 7062413, 7081708, 7101020, 7120347, 7139690, 7159049, 7178424, 
  7197816, 7217224, 7236648, 7256088, 7275545, 7295018, 7314508, 7334015, 
  7353538, 7373078, 7392635, 7412208, 7431799, 7451406, 7471031, 7490672, 
  7510331, 7530006, 7549700, 7569410, 7589138, 7608883, 7628646, 7648426, 
  7668224, 7688039, 7707873, 7727724, 7747593, 7767480, 7787384, 7807307, 
  7827248, 7847208, 7867185, 7887181, 7907195, 7927228, 7947279, 7967348, 
  7987437, 8007544, 8027669, 8047814, 8067977, 8088160, 8108361, 8128581, 
  8148821, 8169080, 8189358, 8209655, 8229972, 8250308, 8270664, 8291040, 
  8311435, 8331850, 8352284, 8372739, 8393213, 8413708, 8434223, 8454757, 
  8475312, 8495888, 8516483, 8537099, 8557736, 8578393, 8599071, 8619769, 
  8640488, 8661228, 8681990, 8702772, 8723575, 8744399, 8765244, 8786111, 
  8806999, 8827909, 8848840, 8869792, 8890766, 8911762, 8932780, 8953820, 
  8974881, 8995965, 9017070, 9038198, 9059348, 9080521, 9101715, 9122933, 
  9144172, 9165435, 9186720, 9208028, 9229359, 9250712, 9272089, 9293489, 
  9314912, 9336358, 9357827, 9379320, 9400837, 9422377, 9443940, 9465527, 
  9487138, 9508773, 9530432, 9552115, 9573823, 9595554, 9617309, 9639089, 
  9660894, 9682723, 9704576, 9726455, 9748358, 9770286, 9792239, 9814217, 
  9836220, 9858248, 9880302, 9902380, 9924485, 9946615, 9968771, 9990952, 
  10013159, 10035392, 10057651, 10079936, 10102248, 10124585, 10146949, 
  10169339, 10191756, 10214200, 10236670, 10259167, 10281691, 10304241, 
  10326819, 10349424, 10372057, 10394716, 10417403, 10440118, 10462860, 
  10485630, 10508428, 10531254, 10554107, 10576989, 10599899, 10622837, 
  10645804, 10668799, 10691823, 10714875, 10737956, 10761066, 10784205, 
  10807373, 10830570, 10853797, 10877053, 10900338, 10923653, 10946998, 
  10970372, 10993776, 11017210, 11040674, 11064169, 11087694, 11111249, 
  11134834, 11158450, 11182097, 11205775, 11229483, 11253223, 11276994, 
  11300796, 11324629, 11348494, 11372390, 11396318, 11420278, 11444269, 
  11468293, 11492348, 11516436, 11540556, 11564709, 11588894, 11613112, 
  11637362, 11661646, 11685962, 11710312, 11734694, 11759110, 11783560, 
  11808043, 11832560, 11857110, 11881695, 11906313, 11930966, 11955653, 
  11980374, 12005130, 12029920, 12054745, 12079605, 12104500, 12129430, 
  12154396, 12179396, 12204433, 12229504, 12254612, 12279755, 12304934, 
  12330150, 12355401, 12380689, 12406014, 12431375, 12456772, 12482207, 
  12507679, 12533187, 12558733, 12584317, 12609937, 12635596, 12661292, 
  12687026, 12712798, 12738609, 12764457, 12790345, 12816270, 12842235, 
  12868238, 12894280, 12920361, 12946482, 12972642, 12998842, 13025081, 
  13051360, 13077679, 13104038, 13130437, 13156877, 13183357, 13209878, 
  13236440, 13263042, 13289686, 13316371, 13343098, 13369866, 13396675, 
  13423527, 13450420, 13477356, 13504334, 13531354, 13558417, 13585523, 
  13612672, 13639864, 13667098, 13694377, 13721699, 13749064, 13776473, 
  13803927, 13831424, 13858966, 13886552, 13914183, 13941859, 13969579, 
  13997345, 14025156, 14053013, 14080915, 14108863, 14136857, 14164896, 
  14192983, 14221115, 14249295, 14277521, 14305794, 14334114, 14362481, 
  14390896, 14419359, 14447869, 14476427, 14505034, 14533689, 14562392, 
  14591144, 14619945, 14648795, 14677694, 14706643, 14735641, 14764689, 
  14793788, 14822936, 14852134, 14881383, 14910683, 14940034, 14969436, 
  14998889, 15028393, 15057950, 15087558, 15117218, 15146930, 15176695, 
  15206512, 15236383, 15266306, 15296282, 15326312, 15356396, 15386533, 
  15416725, 15446971, 15477271, 15507625, 15538035, 15568500, 15599020, 
  15629595, 15660226, 15690913, 15721656, 15752456, 15783312, 15814224, 
  15845194, 15876221, 15907305, 15938447, 15969646, 16000904, 16032220, 
  16063595, 16095028, 16126520, 16158072, 16189682, 16221353, 16253083, 
  16284873, 16316724, 16348635, 16380608, 16412641, 16444735, 16476891, 
  16509108, 16541388, 16573730, 16606134, 16638601, 16671131, 16703724, 
  16736380, 16769101, 16801885, 16834733, 16867646, 16900623, 16933666, 
  16966774, 16999947, 17033185, 17066490, 17099861, 17133299, 17166803, 
  17200374, 17234013, 17267719, 17301493, 17335335, 17369246, 17403225, 
  17437273, 17471390, 17505576, 17539833, 17574159, 17608556, 17643023, 
  17677561, 17712171, 17746851, 17781604, 17816428, 17851325, 17886294, 
  17921337, 17956452, 17991641, 18026904, 18062241, 18097652, 18133138, 
  18168698, 18204335, 18240046, 18275834, 18311698, 18347638, 18383656, 
  18419750, 18455922, 18492172, 18528499, 18564906, 18601391, 18637955, 
  18674598, 18711322, 18748125, 18785009, 18821973, 18859019, 18896146, 
  18933355, 18970646, 19008019, 19045475, 19083015, 19120638, 19158344, 
  19196135, 19234010, 19271971, 19310016, 19348147, 19386364, 19424668, 
  19463058, 19501535, 19540100, 19578753, 19617493, 19656323, 19695241, 
  19734249, 19773346, 19812534, 19851811, 19891180, 19930640, 19970192, 
  20009836, 20049572, 20089401, 20129324, 20169340, 20209450, 20249654, 
  20289954, 20330349, 20370839, 20411426, 20452109, 20492889, 20533767, 
  20574742, 20615816, 20656988, 20698260, 20739631, 20781102, 20822673, 
  20864346, 20906120, 20947995, 20989973, 21032053, 21074237, 21116524, 
  21158916, 21201412, 21244012, 21286719, 21329531, 21372450, 21415476, 
  21458609, 21501850, 21545199, 21588658, 21632225, 21675903, 21719691, 
  21763589, 21807599, 21851721, 21895955, 21940303, 21984763, 22029338, 
  22074027, 22118831, 22163750, 22208786, 22253938, 22299207, 22344594, 
  22390100, 22435723, 22481467, 22527330, 22573313, 22619418, 22665644, 
  22711992, 22758463, 22805058, 22851776, 22898618, 22945586, 22992679, 
  23039899, 23087245, 23134719, 23182320, 23230051, 23277910, 23325900, 
  23374020, 23422271, 23470654, 23519169, 23567817, 23616599, 23665516, 
  23714567, 23763753, 23813077, 23862536, 23912134, 23961870, 24011745, 
  24061759, 24111914, 24162209, 24212647, 24263226, 24313949, 24364815, 
  24415826, 24466983, 24518285, 24569734, 24621330, 24673074, 24724967, 
  24777010, 24829203, 24881547, 24934043, 24986691, 25039493, 25092449, 
  25145560, 25198827, 25252250, 25305830, 25359569, 25413466, 25467523, 
  25521741, 25576119, 25630661, 25685365, 25740232, 25795265, 25850463, 
  25905827, 25961359, 26017059, 26072927, 26128966>>

(* cosh(j/32) * 2^16, j = 0..256 *)
CoshTab == <<
  65536, 65568, 65664, 65824, 66049, 66338, 66691, 67110, 67595, 68145, 
  68762, 69446, 70198, 71019, 71909, 72869, 73900, 75004, 76180, 77431, 
  78758, 80162, 81644, 83205, 84848, 86574, 88385, 90281, 92266, 94341, 
  96508, 98770, 101127, 103584, 106142, 108803, 111571, 114447, 117436, 
  120539, 123760, 127101, 130567, 134161, 137885, 141744, 145742, 149881, 
  154168, 158604, 163196, 167947, 172862, 177946, 183204, 188640, 194261, 
  200072, 206078, 212285, 218699, 225327, 232176, 239251, 246559, 254109, 
  261906, 269960, 278277, 286865, 295734, 304892, 314348, 324110, 334190, 
  344595, 355337, 366426, 377873, 389689, 401886, 414475, 427469, 440880, 
  454722, 469008, 483752, 498969, 514673, 530879, 547604, 564864, 582675, 
  601056, 620023, 639597, 659794, 680636, 702143, 724336, 747236, 770866, 
  795248, 820408, 846368, 873156, 900796, 929315, 958743, 989106, 1020436, 
  1052762, 1086117, 1120532, 1156041, 1192680, 1230483, 1269489, 1309733, 
  1351258, 1394101, 1438307, 1483917, 1530976, 1579531, 1629628, 1681317, 
  1734647, 1789672, 1846445, 1905021, 1965458, 2027814, 2092151, 2158531, 
  2227019, 2297682, 2370589, 2445811, 2523422, 2603497, 2686115, 2771357, 
  2859305, 2950045, 3043667, 3140261, 3239923, 3342748, 3448838, 3558297, 
  3671230, 3787749, 3907968, 4032003, 4159976, 4292011, 4428239, 4568791, 
  4713805, 4863423, 5017791, 5177059, 5341384, 5510925, 5685848, 5866325, 
  6052531, 6244647, 6442863, 6647371, 6858371, 7076069, 7300679, 7532418, 
  7771513, 8018199, 8272716, 8535312, 8806244, 9085776, 9374183, 9671744, 
  9978751, 10295504, 10622312, 10959494, 11307379, 11666308, 12036631, 
  12418709, 12812916, 13219636, 13639267, 14072219, 14518914, 14979790, 
  15455295, 15945894, 16452067, 16974307, 17513126, 18069048, 18642618, 
  19234394, 19844956, 20474899, 21124839, 21795410, 22487268, 23201087, 
  23937566, 24697423, 25481401, 26290265, 27124805, 27985836, 28874199, 
  29790762, 30736421, 31712097, 32718745, 33757347, 34828919, 35934505, 
  37075187, 38252078, 39466327, 40719122, 42011684, 43345276, 44721201, 
  46140803, 47605468, 49116626, 50675754, 52284374, 53944057, 55656423, 
  57423147, 59245952, 61126619, 63066985, 65068945, 67134454, 69265530, 
  71464253, 73732771, 76073299, 78488124, 80979603, 83550171, 86202338, 
  88938693, 91761909, 94674744, 97680042>>

(* sinh(j/32) * 2^16, j = 0..256 *)
SinhTab == <<
  0, 2048, 4099, 6153, 8213, 10282, 12360, 14451, 16555, 18676, 20815, 
  22974, 25156, 27362, 29595, 31857, 34151, 36477, 38839, 41239, 43679, 
  46162, 48690, 51266, 53891, 56570, 59303, 62095, 64947, 67862, 70844, 
  73895, 77018, 80216, 83493, 86851, 90294, 93826, 97448, 101167, 104983, 
  108903, 112929, 117065, 121315, 125684, 130175, 134794, 139544, 144431, 
  149459, 154633, 159957, 165438, 171081, 176890, 182873, 189034, 195379, 
  201915, 208649, 215586, 222734, 230100, 237690, 245512, 253574, 261884, 
  270450, 279279, 288382, 297766, 307440, 317416, 327701, 338306, 349241, 
  360518, 372147, 384139, 396506, 409261, 422415, 435982, 449975, 464407, 
  479292, 494646, 510483, 526818, 543668, 561049, 578978, 597472, 616550, 
  636230, 656531, 677474, 699078, 721365, 744357, 768075, 792543, 817786, 
  843827, 870693, 898408, 927002, 956500, 986933, 1018329, 1050720, 
  1084138, 1118614, 1154182, 1190878, 1228737, 1267796, 1308093, 1349667, 
  1392560, 1436813, 1482469, 1529573, 1578171, 1628310, 1680039, 1733409, 
  1788472, 1845282, 1903894, 1964365, 2026755, 2091124, 2157535, 2226054, 
  2296747, 2369683, 2444933, 2522571, 2602672, 2685316, 2770582, 2858554, 
  2949317, 3042961, 3139577, 3239260, 3342106, 3448216, 3557693, 3670645, 
  3787182, 3907418, 4031470, 4159459, 4291511, 4427754, 4568321, 4713350, 
  4862982, 5017363, 5176645, 5340982, 5510535, 5685471, 5865959, 6052176, 
  6244304, 6442530, 6647048, 6858058, 7075766, 7300384, 7532133, 7771237, 
  8017931, 8272456, 8535060, 8806000, 9085540, 9373953, 9671522, 9978536, 
  10295295, 10622110, 10959298, 11307189, 11666124, 12036452, 12418536, 
  12812748, 13219473, 13639110, 14072066, 14518767, 14979646, 15455156, 
  15945759, 16451936, 16974181, 17513003, 18068930, 18642503, 19234283, 
  19844848, 20474794, 21124737, 21795312, 22487172, 23200995, 23937476, 
  24697336, 25481316, 26290183, 27124725, 27985759, 28874125, 29790690, 
  30736351, 31712029, 32718679, 33757284, 34828857, 35934445, 37075129, 
  38252022, 39466273, 40719069, 42011632, 43345226, 44721153, 46140756, 
  47605423, 49116582, 50675711, 52284333, 53944017, 55656385, 57423109, 
  59245916, 61126584, 63066951, 65068912, 67134422, 69265499, 71464223, 
  73732741, 76073271, 78488096, 80979577, 83550146, 86202313, 88938669, 
  91761886, 94674721, 97680020>>
=============================================================================
