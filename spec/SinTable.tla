------------------------------ MODULE SinTable ------------------------------
(* sin(k/8 degrees), k = 0..720, in units of 1/SinScale.  The values are not   *)
(* trusted: MCGridArea checks them against the identities defining the sine.   *)
EXTENDS Integers, Sequences
SinScale == 500000000
SinTab == <<
  0, 1090830, 2181655, 3272469, 4363268, 5454046, 6544798, 7635519, 8726203, 9816846, 10907443, 11997987,
  13088474, 14178899, 15269257, 16359541, 17449748, 18539872, 19629908, 20719850, 21809694, 22899433, 23989064, 25078581,
  26167978, 27257251, 28346394, 29435402, 30524270, 31612992, 32701565, 33789981, 34878237, 35966327, 37054245, 38141987,
  39229548, 40316922, 41404104, 42491089, 43577871, 44664447, 45750809, 46836954, 47922876, 49008570, 50094031, 51179253,
  52264232, 53348961, 54433437, 55517654, 56601607, 57685290, 58768699, 59851828, 60934672, 62017226, 63099485, 64181443,
  65263096, 66344439, 67425465, 68506171, 69586550, 70666599, 71746311, 72825682, 73904706, 74983378, 76061693, 77139646,
  78217233, 79294446, 80371283, 81447737, 82523803, 83599476, 84674752, 85749624, 86824089, 87898140, 88971773, 90044982,
  91117763, 92190110, 93262018, 94333482, 95404498, 96475059, 97545161, 98614799, 99683967, 100752661, 101820876, 102888605,
  103955845, 105022591, 106088836, 107154577, 108219807, 109284522, 110348718, 111412387, 112475527, 113538132, 114600195, 115661714,
  116722682, 117783094, 118842946, 119902232, 120960948, 122019088, 123076647, 124133620, 125190002, 126245789, 127300974, 128355554,
  129409523, 130462875, 131515607, 132567713, 133619188, 134670027, 135720225, 136769777, 137818678, 138866923, 139914507, 140961425,
  142007672, 143053244, 144098134, 145142339, 146185852, 147228670, 148270787, 149312199, 150352900, 151392885, 152432150, 153470689,
  154508497, 155545570, 156581903, 157617491, 158652328, 159686410, 160719733, 161752290, 162784077, 163815090, 164845323, 165874771,
  166903430, 167931294, 168958359, 169984620, 171010072, 172034710, 173058529, 174081524, 175103691, 176125024, 177145519, 178165171,
  179183975, 180201926, 181219019, 182235250, 183250613, 184265105, 185278719, 186291451, 187303297, 188314251, 189324309, 190333465,
  191341716, 192349056, 193355481, 194360985, 195365564, 196369214, 197371928, 198373703, 199374534, 200374417, 201373345, 202371315,
  203368322, 204364360, 205359426, 206353515, 207346621, 208338741, 209329869, 210320000, 211309131, 212297256, 213284370, 214270469,
  215255548, 216239603, 217222629, 218204620, 219185573, 220165483, 221144345, 222122154, 223098907, 224074597, 225049221, 226022773,
  226995250, 227966646, 228936958, 229906179, 230874307, 231841335, 232807260, 233772077, 234735781, 235698368, 236659834, 237620172,
  238579380, 239537452, 240494384, 241450172, 242404810, 243358295, 244310621, 245261784, 246211780, 247160604, 248108252, 249054719,
  250000000, 250944091, 251886989, 252828687, 253769181, 254708468, 255646543, 256583401, 257519037, 258453448, 259386629, 260318575,
  261249282, 262178746, 263106962, 264033925, 264959632, 265884078, 266807258, 267729168, 268649804, 269569161, 270487236, 271404022,
  272319518, 273233716, 274146615, 275058208, 275968493, 276877464, 277785117, 278691447, 279596452, 280500125, 281402464, 282303463,
  283203118, 284101426, 284998381, 285893980, 286788218, 287681091, 288572595, 289462725, 290351478, 291238848, 292124833, 293009427,
  293892626, 294774427, 295654824, 296533814, 297411393, 298287557, 299162300, 300035620, 300907512, 301777971, 302646994, 303514577,
  304380715, 305245404, 306108640, 306970419, 307830738, 308689591, 309546975, 310402885, 311257318, 312110270, 312961736, 313811713,
  314660196, 315507181, 316352664, 317196642, 318039110, 318880064, 319719501, 320557416, 321393805, 322228664, 323061990, 323893778,
  324724024, 325552725, 326379876, 327205474, 328029514, 328851994, 329672908, 330492252, 331310024, 332126219, 332940833, 333753862,
  334565303, 335375152, 336183404, 336990056, 337795104, 338598544, 339400373, 340200586, 340999180, 341796151, 342591495, 343385209,
  344177288, 344967729, 345756528, 346543681, 347329185, 348113036, 348895230, 349675763, 350454632, 351231833, 352007362, 352781216,
  353553391, 354323882, 355092688, 355859803, 356625225, 357388949, 358150972, 358911290, 359669900, 360426798, 361181981, 361935445,
  362687186, 363437200, 364185485, 364932036, 365676851, 366419925, 367161255, 367900837, 368638668, 369374745, 370109064, 370841621,
  371572413, 372301436, 373028688, 373754163, 374477860, 375199775, 375919904, 376638243, 377354790, 378069541, 378782492, 379493641,
  380202983, 380910515, 381616235, 382320138, 383022222, 383722482, 384420916, 385117520, 385812292, 386505227, 387196322, 387885574,
  388572981, 389258538, 389942242, 390624090, 391304078, 391982205, 392658465, 393332857, 394005377, 394676021, 395344787, 396011671,
  396676670, 397339781, 398001001, 398660327, 399317755, 399973283, 400626906, 401278623, 401928430, 402576324, 403222302, 403866361,
  404508497, 405148708, 405786991, 406423342, 407057759, 407690239, 408320778, 408949373, 409576022, 410200722, 410823469, 411444261,
  412063094, 412679967, 413294875, 413907815, 414518786, 415127784, 415734806, 416339849, 416942911, 417543988, 418143078, 418740177,
  419335284, 419928395, 420519506, 421108617, 421695723, 422280822, 422863911, 423444987, 424024048, 424601091, 425176112, 425749111,
  426320082, 426889025, 427455935, 428020811, 428583650, 429144449, 429703206, 430259917, 430814580, 431367193, 431917753, 432466256,
  433012702, 433557086, 434099407, 434639662, 435177848, 435713963, 436248004, 436779968, 437309854, 437837658, 438363378, 438887012,
  439408556, 439928010, 440445369, 440960632, 441473796, 441984859, 442493819, 443000672, 443505417, 444008050, 444508571, 445006975,
  445503262, 445997428, 446489472, 446979390, 447467181, 447952842, 448436371, 448917765, 449397023, 449874142, 450349120, 450821954,
  451292642, 451761183, 452227573, 452691810, 453153894, 453613820, 454071587, 454527193, 454980635, 455431912, 455881022, 456327961,
  456772729, 457215322, 457655740, 458093979, 458530037, 458963913, 459395605, 459825110, 460252427, 460677553, 461100486, 461521224,
  461939766, 462356109, 462770252, 463182192, 463591927, 463999456, 464404776, 464807886, 465208784, 465607467, 466003935, 466398184,
  466790213, 467180021, 467567605, 467952963, 468336095, 468716997, 469095668, 469472106, 469846310, 470218278, 470588008, 470955497,
  471320746, 471683750, 472044510, 472403023, 472759288, 473113302, 473465065, 473814574, 474161828, 474506825, 474849563, 475190041,
  475528258, 475864211, 476197900, 476529322, 476858475, 477185359, 477509972, 477832312, 478152378, 478470168, 478785680, 479098914,
  479409867, 479718539, 480024927, 480329031, 480630848, 480930378, 481227618, 481522568, 481815227, 482105592, 482393662, 482679436,
  482962913, 483244091, 483522969, 483799546, 484073820, 484345790, 484615455, 484882813, 485147863, 485410604, 485671035, 485929154,
  486184960, 486438452, 486689629, 486938490, 487185032, 487429256, 487671160, 487910743, 488148004, 488382941, 488615553, 488845840,
  489073800, 489299433, 489522736, 489743710, 489962352, 490178663, 490392640, 490604284, 490813592, 491020564, 491225199, 491427496,
  491627454, 491825072, 492020349, 492213284, 492403877, 492592125, 492778030, 492961588, 493142801, 493321666, 493498183, 493672352,
  493844170, 494013638, 494180755, 494345520, 494507932, 494667990, 494825693, 494981042, 495134034, 495284670, 495432949, 495578869,
  495722431, 495863633, 496002475, 496138956, 496273076, 496404834, 496534228, 496661260, 496785928, 496908231, 497028169, 497145742,
  497260948, 497373787, 497484259, 497592363, 497698099, 497801466, 497902464, 498001092, 498097349, 498191236, 498282751, 498371895,
  498458667, 498543066, 498625093, 498704746, 498782025, 498856931, 498929462, 498999618, 499067399, 499132805, 499195835, 499256489,
  499314767, 499370669, 499424193, 499475341, 499524111, 499570503, 499614518, 499656155, 499695414, 499732294, 499766795, 499798918,
  499828662, 499856028, 499881014, 499903620, 499923848, 499941695, 499957164, 499970253, 499980962, 499989291, 499995240, 499998810,
  500000000 >>
Sin8(k) == IF k >= 0 THEN SinTab[k + 1] ELSE -SinTab[1 - k]
=============================================================================
