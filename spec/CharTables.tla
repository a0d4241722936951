---------------------------- MODULE CharTables ----------------------------
(* Unicode classes and mappings of the non-ASCII code points the models and *)
(* the harness use.  Data only (Unicode character database), plus Translit,  *)
(* the table of the transliteration stand-in (harness/shims/unidecode).      *)
EXTENDS Naturals, Sequences, TLC
KnownNonAscii ==
  (128..1647) \cup (2304..2431) \cup (4256..4351) \cup (7680..11263) \cup (12288..12290) \cup (19968..19984)
   \cup (44032..44048) \cup (64256..64262) \cup (65281..65376) \cup (66560..66639) \cup (119808..119824)
   \cup (128512..128515) \cup {5760,65279,65533}
NonAsciiAlpha ==
  (192..214) \cup (216..246) \cup (248..705) \cup (710..721) \cup (736..740) \cup (867..884) \cup (886..887)
   \cup (890..893) \cup (904..906) \cup (910..929) \cup (931..1013) \cup (1015..1153) \cup (1162..1327)
   \cup (1329..1366) \cup (1376..1416) \cup (1456..1469) \cup (1473..1474) \cup (1476..1477)
   \cup (1488..1514) \cup (1519..1522) \cup (1552..1562) \cup (1568..1623) \cup (1625..1631)
   \cup (1646..1647) \cup (2304..2363) \cup (2365..2380) \cup (2382..2384) \cup (2389..2403)
   \cup (2417..2431) \cup (4256..4293) \cup (4304..4346) \cup (4348..4351) \cup (7680..7957)
   \cup (7960..7965) \cup (7968..8005) \cup (8008..8013) \cup (8016..8023) \cup (8031..8061)
   \cup (8064..8116) \cup (8118..8124) \cup (8130..8132) \cup (8134..8140) \cup (8144..8147)
   \cup (8150..8155) \cup (8160..8172) \cup (8178..8180) \cup (8182..8188) \cup (8336..8348)
   \cup (8458..8467) \cup (8473..8477) \cup (8490..8493) \cup (8495..8505) \cup (8508..8511)
   \cup (8517..8521) \cup (8544..8584) \cup (9398..9449) \cup (19968..19984) \cup (44032..44048)
   \cup (64256..64262) \cup (65313..65338) \cup (65345..65370) \cup (66560..66639) \cup (119808..119824)
   \cup {170,181,186,748,750,837,895,902,908,1369,1471,1479,4295,4301,8025,8027,8029,8126,8305,8319,8450,8455,8469,8484,8486,8488,8526}
NonAsciiNumeric ==
  (178..179) \cup (188..190) \cup (1632..1641) \cup (2406..2415) \cup (8308..8313) \cup (8320..8329)
   \cup (8528..8578) \cup (8581..8585) \cup (9312..9371) \cup (9450..9471) \cup (10102..10131)
   \cup (65296..65305) \cup {185,8304}
NonAsciiUpper ==
  (192..214) \cup (216..222) \cup (376..377) \cup (385..386) \cup (390..391) \cup (393..395) \cup (398..401)
   \cup (403..404) \cup (406..408) \cup (412..413) \cup (415..416) \cup (422..423) \cup (430..431)
   \cup (433..435) \cup (439..440) \cup (502..504) \cup (570..571) \cup (573..574) \cup (579..582)
   \cup (904..906) \cup (910..911) \cup (913..929) \cup (931..939) \cup (978..980) \cup (1017..1018)
   \cup (1021..1071) \cup (1216..1217) \cup (1329..1366) \cup (4256..4293) \cup (7944..7951)
   \cup (7960..7965) \cup (7976..7983) \cup (7992..7999) \cup (8008..8013) \cup (8040..8047)
   \cup (8120..8123) \cup (8136..8139) \cup (8152..8155) \cup (8168..8172) \cup (8184..8187)
   \cup (8459..8461) \cup (8464..8466) \cup (8473..8477) \cup (8490..8493) \cup (8496..8499)
   \cup (8510..8511) \cup (8544..8559) \cup (9398..9423) \cup (65313..65338) \cup (66560..66599)
   \cup (119808..119824)
   \cup {256,258,260,262,264,266,268,270,272,274,276,278,280,282,284,286,288,290,292,294,296,298,300,302,304,306,308,310,313,315,317,319,321,323,325,327,330,332,334,336,338,340,342,344,346,348,350,352,354,356,358,360,362,364,366,368,370,372,374,379,381,388,418,420,425,428,437,444,452,455,458,461,463,465,467,469,471,473,475,478,480,482,484,486,488,490,492,494,497,500,506,508,510,512,514,516,518,520,522,524,526,528,530,532,534,536,538,540,542,544,546,548,550,552,554,556,558,560,562,577,584,586,588,590,880,882,886,895,902,908,975,984,986,988,990,992,994,996,998,1000,1002,1004,1006,1012,1015,1120,1122,1124,1126,1128,1130,1132,1134,1136,1138,1140,1142,1144,1146,1148,1150,1152,1162,1164,1166,1168,1170,1172,1174,1176,1178,1180,1182,1184,1186,1188,1190,1192,1194,1196,1198,1200,1202,1204,1206,1208,1210,1212,1214,1219,1221,1223,1225,1227,1229,1232,1234,1236,1238,1240,1242,1244,1246,1248,1250,1252,1254,1256,1258,1260,1262,1264,1266,1268,1270,1272,1274,1276,1278,1280,1282,1284,1286,1288,1290,1292,1294,1296,1298,1300,1302,1304,1306,1308,1310,1312,1314,1316,1318,1320,1322,1324,1326,4295,4301,7680,7682,7684,7686,7688,7690,7692,7694,7696,7698,7700,7702,7704,7706,7708,7710,7712,7714,7716,7718,7720,7722,7724,7726,7728,7730,7732,7734,7736,7738,7740,7742,7744,7746,7748,7750,7752,7754,7756,7758,7760,7762,7764,7766,7768,7770,7772,7774,7776,7778,7780,7782,7784,7786,7788,7790,7792,7794,7796,7798,7800,7802,7804,7806,7808,7810,7812,7814,7816,7818,7820,7822,7824,7826,7828,7838,7840,7842,7844,7846,7848,7850,7852,7854,7856,7858,7860,7862,7864,7866,7868,7870,7872,7874,7876,7878,7880,7882,7884,7886,7888,7890,7892,7894,7896,7898,7900,7902,7904,7906,7908,7910,7912,7914,7916,7918,7920,7922,7924,7926,7928,7930,7932,7934,8025,8027,8029,8031,8450,8455,8469,8484,8486,8488,8517,8579}
NonAsciiLower ==
  (223..246) \cup (248..255) \cup (311..312) \cup (328..329) \cup (382..384) \cup (396..397) \cup (409..411)
   \cup (426..427) \cup (441..442) \cup (445..447) \cup (476..477) \cup (495..496) \cup (563..569)
   \cup (575..576) \cup (591..659) \cup (662..696) \cup (704..705) \cup (736..740) \cup (890..893)
   \cup (940..974) \cup (976..977) \cup (981..983) \cup (1007..1011) \cup (1019..1020) \cup (1072..1119)
   \cup (1230..1231) \cup (1376..1416) \cup (4304..4346) \cup (4348..4351) \cup (7829..7837)
   \cup (7935..7943) \cup (7952..7957) \cup (7968..7975) \cup (7984..7991) \cup (8000..8005)
   \cup (8016..8023) \cup (8032..8039) \cup (8048..8061) \cup (8064..8071) \cup (8080..8087)
   \cup (8096..8103) \cup (8112..8116) \cup (8118..8119) \cup (8130..8132) \cup (8134..8135)
   \cup (8144..8147) \cup (8150..8151) \cup (8160..8167) \cup (8178..8180) \cup (8182..8183)
   \cup (8336..8348) \cup (8462..8463) \cup (8508..8509) \cup (8518..8521) \cup (8560..8575)
   \cup (9424..9449) \cup (64256..64262) \cup (65345..65370) \cup (66600..66639)
   \cup {170,181,186,257,259,261,263,265,267,269,271,273,275,277,279,281,283,285,287,289,291,293,295,297,299,301,303,305,307,309,314,316,318,320,322,324,326,331,333,335,337,339,341,343,345,347,349,351,353,355,357,359,361,363,365,367,369,371,373,375,378,380,387,389,392,402,405,414,417,419,421,424,429,432,436,438,454,457,460,462,464,466,468,470,472,474,479,481,483,485,487,489,491,493,499,501,505,507,509,511,513,515,517,519,521,523,525,527,529,531,533,535,537,539,541,543,545,547,549,551,553,555,557,559,561,572,578,583,585,587,589,837,881,883,887,912,985,987,989,991,993,995,997,999,1001,1003,1005,1013,1016,1121,1123,1125,1127,1129,1131,1133,1135,1137,1139,1141,1143,1145,1147,1149,1151,1153,1163,1165,1167,1169,1171,1173,1175,1177,1179,1181,1183,1185,1187,1189,1191,1193,1195,1197,1199,1201,1203,1205,1207,1209,1211,1213,1215,1218,1220,1222,1224,1226,1228,1233,1235,1237,1239,1241,1243,1245,1247,1249,1251,1253,1255,1257,1259,1261,1263,1265,1267,1269,1271,1273,1275,1277,1279,1281,1283,1285,1287,1289,1291,1293,1295,1297,1299,1301,1303,1305,1307,1309,1311,1313,1315,1317,1319,1321,1323,1325,1327,7681,7683,7685,7687,7689,7691,7693,7695,7697,7699,7701,7703,7705,7707,7709,7711,7713,7715,7717,7719,7721,7723,7725,7727,7729,7731,7733,7735,7737,7739,7741,7743,7745,7747,7749,7751,7753,7755,7757,7759,7761,7763,7765,7767,7769,7771,7773,7775,7777,7779,7781,7783,7785,7787,7789,7791,7793,7795,7797,7799,7801,7803,7805,7807,7809,7811,7813,7815,7817,7819,7821,7823,7825,7827,7839,7841,7843,7845,7847,7849,7851,7853,7855,7857,7859,7861,7863,7865,7867,7869,7871,7873,7875,7877,7879,7881,7883,7885,7887,7889,7891,7893,7895,7897,7899,7901,7903,7905,7907,7909,7911,7913,7915,7917,7919,7921,7923,7925,7927,7929,7931,7933,8126,8305,8319,8458,8467,8495,8500,8505,8526,8580}
NonAsciiLowercasePairs == <<
  <<192,<<224>>>>,<<193,<<225>>>>,<<194,<<226>>>>,<<195,<<227>>>>,<<196,<<228>>>>,<<197,<<229>>>>
  ,<<198,<<230>>>>,<<199,<<231>>>>,<<200,<<232>>>>,<<201,<<233>>>>,<<202,<<234>>>>,<<203,<<235>>>>
  ,<<204,<<236>>>>,<<205,<<237>>>>,<<206,<<238>>>>,<<207,<<239>>>>,<<208,<<240>>>>,<<209,<<241>>>>
  ,<<210,<<242>>>>,<<211,<<243>>>>,<<212,<<244>>>>,<<213,<<245>>>>,<<214,<<246>>>>,<<216,<<248>>>>
  ,<<217,<<249>>>>,<<218,<<250>>>>,<<219,<<251>>>>,<<220,<<252>>>>,<<221,<<253>>>>,<<222,<<254>>>>
  ,<<256,<<257>>>>,<<258,<<259>>>>,<<260,<<261>>>>,<<262,<<263>>>>,<<264,<<265>>>>,<<266,<<267>>>>
  ,<<268,<<269>>>>,<<270,<<271>>>>,<<272,<<273>>>>,<<274,<<275>>>>,<<276,<<277>>>>,<<278,<<279>>>>
  ,<<280,<<281>>>>,<<282,<<283>>>>,<<284,<<285>>>>,<<286,<<287>>>>,<<288,<<289>>>>,<<290,<<291>>>>
  ,<<292,<<293>>>>,<<294,<<295>>>>,<<296,<<297>>>>,<<298,<<299>>>>,<<300,<<301>>>>,<<302,<<303>>>>
  ,<<304,<<105,775>>>>,<<306,<<307>>>>,<<308,<<309>>>>,<<310,<<311>>>>,<<313,<<314>>>>
  ,<<315,<<316>>>>,<<317,<<318>>>>,<<319,<<320>>>>,<<321,<<322>>>>,<<323,<<324>>>>,<<325,<<326>>>>
  ,<<327,<<328>>>>,<<330,<<331>>>>,<<332,<<333>>>>,<<334,<<335>>>>,<<336,<<337>>>>,<<338,<<339>>>>
  ,<<340,<<341>>>>,<<342,<<343>>>>,<<344,<<345>>>>,<<346,<<347>>>>,<<348,<<349>>>>,<<350,<<351>>>>
  ,<<352,<<353>>>>,<<354,<<355>>>>,<<356,<<357>>>>,<<358,<<359>>>>,<<360,<<361>>>>,<<362,<<363>>>>
  ,<<364,<<365>>>>,<<366,<<367>>>>,<<368,<<369>>>>,<<370,<<371>>>>,<<372,<<373>>>>,<<374,<<375>>>>
  ,<<376,<<255>>>>,<<377,<<378>>>>,<<379,<<380>>>>,<<381,<<382>>>>,<<385,<<595>>>>,<<386,<<387>>>>
  ,<<388,<<389>>>>,<<390,<<596>>>>,<<391,<<392>>>>,<<393,<<598>>>>,<<394,<<599>>>>,<<395,<<396>>>>
  ,<<398,<<477>>>>,<<399,<<601>>>>,<<400,<<603>>>>,<<401,<<402>>>>,<<403,<<608>>>>,<<404,<<611>>>>
  ,<<406,<<617>>>>,<<407,<<616>>>>,<<408,<<409>>>>,<<412,<<623>>>>,<<413,<<626>>>>,<<415,<<629>>>>
  ,<<416,<<417>>>>,<<418,<<419>>>>,<<420,<<421>>>>,<<422,<<640>>>>,<<423,<<424>>>>,<<425,<<643>>>>
  ,<<428,<<429>>>>,<<430,<<648>>>>,<<431,<<432>>>>,<<433,<<650>>>>,<<434,<<651>>>>,<<435,<<436>>>>
  ,<<437,<<438>>>>,<<439,<<658>>>>,<<440,<<441>>>>,<<444,<<445>>>>,<<452,<<454>>>>,<<453,<<454>>>>
  ,<<455,<<457>>>>,<<456,<<457>>>>,<<458,<<460>>>>,<<459,<<460>>>>,<<461,<<462>>>>,<<463,<<464>>>>
  ,<<465,<<466>>>>,<<467,<<468>>>>,<<469,<<470>>>>,<<471,<<472>>>>,<<473,<<474>>>>,<<475,<<476>>>>
  ,<<478,<<479>>>>,<<480,<<481>>>>,<<482,<<483>>>>,<<484,<<485>>>>,<<486,<<487>>>>,<<488,<<489>>>>
  ,<<490,<<491>>>>,<<492,<<493>>>>,<<494,<<495>>>>,<<497,<<499>>>>,<<498,<<499>>>>,<<500,<<501>>>>
  ,<<502,<<405>>>>,<<503,<<447>>>>,<<504,<<505>>>>,<<506,<<507>>>>,<<508,<<509>>>>,<<510,<<511>>>>
  ,<<512,<<513>>>>,<<514,<<515>>>>,<<516,<<517>>>>,<<518,<<519>>>>,<<520,<<521>>>>,<<522,<<523>>>>
  ,<<524,<<525>>>>,<<526,<<527>>>>,<<528,<<529>>>>,<<530,<<531>>>>,<<532,<<533>>>>,<<534,<<535>>>>
  ,<<536,<<537>>>>,<<538,<<539>>>>,<<540,<<541>>>>,<<542,<<543>>>>,<<544,<<414>>>>,<<546,<<547>>>>
  ,<<548,<<549>>>>,<<550,<<551>>>>,<<552,<<553>>>>,<<554,<<555>>>>,<<556,<<557>>>>,<<558,<<559>>>>
  ,<<560,<<561>>>>,<<562,<<563>>>>,<<570,<<11365>>>>,<<571,<<572>>>>,<<573,<<410>>>>
  ,<<574,<<11366>>>>,<<577,<<578>>>>,<<579,<<384>>>>,<<580,<<649>>>>,<<581,<<652>>>>,<<582,<<583>>>>
  ,<<584,<<585>>>>,<<586,<<587>>>>,<<588,<<589>>>>,<<590,<<591>>>>,<<880,<<881>>>>,<<882,<<883>>>>
  ,<<886,<<887>>>>,<<895,<<1011>>>>,<<902,<<940>>>>,<<904,<<941>>>>,<<905,<<942>>>>,<<906,<<943>>>>
  ,<<908,<<972>>>>,<<910,<<973>>>>,<<911,<<974>>>>,<<913,<<945>>>>,<<914,<<946>>>>,<<915,<<947>>>>
  ,<<916,<<948>>>>,<<917,<<949>>>>,<<918,<<950>>>>,<<919,<<951>>>>,<<920,<<952>>>>,<<921,<<953>>>>
  ,<<922,<<954>>>>,<<923,<<955>>>>,<<924,<<956>>>>,<<925,<<957>>>>,<<926,<<958>>>>,<<927,<<959>>>>
  ,<<928,<<960>>>>,<<929,<<961>>>>,<<931,<<963>>>>,<<932,<<964>>>>,<<933,<<965>>>>,<<934,<<966>>>>
  ,<<935,<<967>>>>,<<936,<<968>>>>,<<937,<<969>>>>,<<938,<<970>>>>,<<939,<<971>>>>,<<975,<<983>>>>
  ,<<984,<<985>>>>,<<986,<<987>>>>,<<988,<<989>>>>,<<990,<<991>>>>,<<992,<<993>>>>,<<994,<<995>>>>
  ,<<996,<<997>>>>,<<998,<<999>>>>,<<1000,<<1001>>>>,<<1002,<<1003>>>>,<<1004,<<1005>>>>
  ,<<1006,<<1007>>>>,<<1012,<<952>>>>,<<1015,<<1016>>>>,<<1017,<<1010>>>>,<<1018,<<1019>>>>
  ,<<1021,<<891>>>>,<<1022,<<892>>>>,<<1023,<<893>>>>,<<1024,<<1104>>>>,<<1025,<<1105>>>>
  ,<<1026,<<1106>>>>,<<1027,<<1107>>>>,<<1028,<<1108>>>>,<<1029,<<1109>>>>,<<1030,<<1110>>>>
  ,<<1031,<<1111>>>>,<<1032,<<1112>>>>,<<1033,<<1113>>>>,<<1034,<<1114>>>>,<<1035,<<1115>>>>
  ,<<1036,<<1116>>>>,<<1037,<<1117>>>>,<<1038,<<1118>>>>,<<1039,<<1119>>>>,<<1040,<<1072>>>>
  ,<<1041,<<1073>>>>,<<1042,<<1074>>>>,<<1043,<<1075>>>>,<<1044,<<1076>>>>,<<1045,<<1077>>>>
  ,<<1046,<<1078>>>>,<<1047,<<1079>>>>,<<1048,<<1080>>>>,<<1049,<<1081>>>>,<<1050,<<1082>>>>
  ,<<1051,<<1083>>>>,<<1052,<<1084>>>>,<<1053,<<1085>>>>,<<1054,<<1086>>>>,<<1055,<<1087>>>>
  ,<<1056,<<1088>>>>,<<1057,<<1089>>>>,<<1058,<<1090>>>>,<<1059,<<1091>>>>,<<1060,<<1092>>>>
  ,<<1061,<<1093>>>>,<<1062,<<1094>>>>,<<1063,<<1095>>>>,<<1064,<<1096>>>>,<<1065,<<1097>>>>
  ,<<1066,<<1098>>>>,<<1067,<<1099>>>>,<<1068,<<1100>>>>,<<1069,<<1101>>>>,<<1070,<<1102>>>>
  ,<<1071,<<1103>>>>,<<1120,<<1121>>>>,<<1122,<<1123>>>>,<<1124,<<1125>>>>,<<1126,<<1127>>>>
  ,<<1128,<<1129>>>>,<<1130,<<1131>>>>,<<1132,<<1133>>>>,<<1134,<<1135>>>>,<<1136,<<1137>>>>
  ,<<1138,<<1139>>>>,<<1140,<<1141>>>>,<<1142,<<1143>>>>,<<1144,<<1145>>>>,<<1146,<<1147>>>>
  ,<<1148,<<1149>>>>,<<1150,<<1151>>>>,<<1152,<<1153>>>>,<<1162,<<1163>>>>,<<1164,<<1165>>>>
  ,<<1166,<<1167>>>>,<<1168,<<1169>>>>,<<1170,<<1171>>>>,<<1172,<<1173>>>>,<<1174,<<1175>>>>
  ,<<1176,<<1177>>>>,<<1178,<<1179>>>>,<<1180,<<1181>>>>,<<1182,<<1183>>>>,<<1184,<<1185>>>>
  ,<<1186,<<1187>>>>,<<1188,<<1189>>>>,<<1190,<<1191>>>>,<<1192,<<1193>>>>,<<1194,<<1195>>>>
  ,<<1196,<<1197>>>>,<<1198,<<1199>>>>,<<1200,<<1201>>>>,<<1202,<<1203>>>>,<<1204,<<1205>>>>
  ,<<1206,<<1207>>>>,<<1208,<<1209>>>>,<<1210,<<1211>>>>,<<1212,<<1213>>>>,<<1214,<<1215>>>>
  ,<<1216,<<1231>>>>,<<1217,<<1218>>>>,<<1219,<<1220>>>>,<<1221,<<1222>>>>,<<1223,<<1224>>>>
  ,<<1225,<<1226>>>>,<<1227,<<1228>>>>,<<1229,<<1230>>>>,<<1232,<<1233>>>>,<<1234,<<1235>>>>
  ,<<1236,<<1237>>>>,<<1238,<<1239>>>>,<<1240,<<1241>>>>,<<1242,<<1243>>>>,<<1244,<<1245>>>>
  ,<<1246,<<1247>>>>,<<1248,<<1249>>>>,<<1250,<<1251>>>>,<<1252,<<1253>>>>,<<1254,<<1255>>>>
  ,<<1256,<<1257>>>>,<<1258,<<1259>>>>,<<1260,<<1261>>>>,<<1262,<<1263>>>>,<<1264,<<1265>>>>
  ,<<1266,<<1267>>>>,<<1268,<<1269>>>>,<<1270,<<1271>>>>,<<1272,<<1273>>>>,<<1274,<<1275>>>>
  ,<<1276,<<1277>>>>,<<1278,<<1279>>>>,<<1280,<<1281>>>>,<<1282,<<1283>>>>,<<1284,<<1285>>>>
  ,<<1286,<<1287>>>>,<<1288,<<1289>>>>,<<1290,<<1291>>>>,<<1292,<<1293>>>>,<<1294,<<1295>>>>
  ,<<1296,<<1297>>>>,<<1298,<<1299>>>>,<<1300,<<1301>>>>,<<1302,<<1303>>>>,<<1304,<<1305>>>>
  ,<<1306,<<1307>>>>,<<1308,<<1309>>>>,<<1310,<<1311>>>>,<<1312,<<1313>>>>,<<1314,<<1315>>>>
  ,<<1316,<<1317>>>>,<<1318,<<1319>>>>,<<1320,<<1321>>>>,<<1322,<<1323>>>>,<<1324,<<1325>>>>
  ,<<1326,<<1327>>>>,<<1329,<<1377>>>>,<<1330,<<1378>>>>,<<1331,<<1379>>>>,<<1332,<<1380>>>>
  ,<<1333,<<1381>>>>,<<1334,<<1382>>>>,<<1335,<<1383>>>>,<<1336,<<1384>>>>,<<1337,<<1385>>>>
  ,<<1338,<<1386>>>>,<<1339,<<1387>>>>,<<1340,<<1388>>>>,<<1341,<<1389>>>>,<<1342,<<1390>>>>
  ,<<1343,<<1391>>>>,<<1344,<<1392>>>>,<<1345,<<1393>>>>,<<1346,<<1394>>>>,<<1347,<<1395>>>>
  ,<<1348,<<1396>>>>,<<1349,<<1397>>>>,<<1350,<<1398>>>>,<<1351,<<1399>>>>,<<1352,<<1400>>>>
  ,<<1353,<<1401>>>>,<<1354,<<1402>>>>,<<1355,<<1403>>>>,<<1356,<<1404>>>>,<<1357,<<1405>>>>
  ,<<1358,<<1406>>>>,<<1359,<<1407>>>>,<<1360,<<1408>>>>,<<1361,<<1409>>>>,<<1362,<<1410>>>>
  ,<<1363,<<1411>>>>,<<1364,<<1412>>>>,<<1365,<<1413>>>>,<<1366,<<1414>>>>,<<4256,<<11520>>>>
  ,<<4257,<<11521>>>>,<<4258,<<11522>>>>,<<4259,<<11523>>>>,<<4260,<<11524>>>>,<<4261,<<11525>>>>
  ,<<4262,<<11526>>>>,<<4263,<<11527>>>>,<<4264,<<11528>>>>,<<4265,<<11529>>>>,<<4266,<<11530>>>>
  ,<<4267,<<11531>>>>,<<4268,<<11532>>>>,<<4269,<<11533>>>>,<<4270,<<11534>>>>,<<4271,<<11535>>>>
  ,<<4272,<<11536>>>>,<<4273,<<11537>>>>,<<4274,<<11538>>>>,<<4275,<<11539>>>>,<<4276,<<11540>>>>
  ,<<4277,<<11541>>>>,<<4278,<<11542>>>>,<<4279,<<11543>>>>,<<4280,<<11544>>>>,<<4281,<<11545>>>>
  ,<<4282,<<11546>>>>,<<4283,<<11547>>>>,<<4284,<<11548>>>>,<<4285,<<11549>>>>,<<4286,<<11550>>>>
  ,<<4287,<<11551>>>>,<<4288,<<11552>>>>,<<4289,<<11553>>>>,<<4290,<<11554>>>>,<<4291,<<11555>>>>
  ,<<4292,<<11556>>>>,<<4293,<<11557>>>>,<<4295,<<11559>>>>,<<4301,<<11565>>>>,<<7680,<<7681>>>>
  ,<<7682,<<7683>>>>,<<7684,<<7685>>>>,<<7686,<<7687>>>>,<<7688,<<7689>>>>,<<7690,<<7691>>>>
  ,<<7692,<<7693>>>>,<<7694,<<7695>>>>,<<7696,<<7697>>>>,<<7698,<<7699>>>>,<<7700,<<7701>>>>
  ,<<7702,<<7703>>>>,<<7704,<<7705>>>>,<<7706,<<7707>>>>,<<7708,<<7709>>>>,<<7710,<<7711>>>>
  ,<<7712,<<7713>>>>,<<7714,<<7715>>>>,<<7716,<<7717>>>>,<<7718,<<7719>>>>,<<7720,<<7721>>>>
  ,<<7722,<<7723>>>>,<<7724,<<7725>>>>,<<7726,<<7727>>>>,<<7728,<<7729>>>>,<<7730,<<7731>>>>
  ,<<7732,<<7733>>>>,<<7734,<<7735>>>>,<<7736,<<7737>>>>,<<7738,<<7739>>>>,<<7740,<<7741>>>>
  ,<<7742,<<7743>>>>,<<7744,<<7745>>>>,<<7746,<<7747>>>>,<<7748,<<7749>>>>,<<7750,<<7751>>>>
  ,<<7752,<<7753>>>>,<<7754,<<7755>>>>,<<7756,<<7757>>>>,<<7758,<<7759>>>>,<<7760,<<7761>>>>
  ,<<7762,<<7763>>>>,<<7764,<<7765>>>>,<<7766,<<7767>>>>,<<7768,<<7769>>>>,<<7770,<<7771>>>>
  ,<<7772,<<7773>>>>,<<7774,<<7775>>>>,<<7776,<<7777>>>>,<<7778,<<7779>>>>,<<7780,<<7781>>>>
  ,<<7782,<<7783>>>>,<<7784,<<7785>>>>,<<7786,<<7787>>>>,<<7788,<<7789>>>>,<<7790,<<7791>>>>
  ,<<7792,<<7793>>>>,<<7794,<<7795>>>>,<<7796,<<7797>>>>,<<7798,<<7799>>>>,<<7800,<<7801>>>>
  ,<<7802,<<7803>>>>,<<7804,<<7805>>>>,<<7806,<<7807>>>>,<<7808,<<7809>>>>,<<7810,<<7811>>>>
  ,<<7812,<<7813>>>>,<<7814,<<7815>>>>,<<7816,<<7817>>>>,<<7818,<<7819>>>>,<<7820,<<7821>>>>
  ,<<7822,<<7823>>>>,<<7824,<<7825>>>>,<<7826,<<7827>>>>,<<7828,<<7829>>>>,<<7838,<<223>>>>
  ,<<7840,<<7841>>>>,<<7842,<<7843>>>>,<<7844,<<7845>>>>,<<7846,<<7847>>>>,<<7848,<<7849>>>>
  ,<<7850,<<7851>>>>,<<7852,<<7853>>>>,<<7854,<<7855>>>>,<<7856,<<7857>>>>,<<7858,<<7859>>>>
  ,<<7860,<<7861>>>>,<<7862,<<7863>>>>,<<7864,<<7865>>>>,<<7866,<<7867>>>>,<<7868,<<7869>>>>
  ,<<7870,<<7871>>>>,<<7872,<<7873>>>>,<<7874,<<7875>>>>,<<7876,<<7877>>>>,<<7878,<<7879>>>>
  ,<<7880,<<7881>>>>,<<7882,<<7883>>>>,<<7884,<<7885>>>>,<<7886,<<7887>>>>,<<7888,<<7889>>>>
  ,<<7890,<<7891>>>>,<<7892,<<7893>>>>,<<7894,<<7895>>>>,<<7896,<<7897>>>>,<<7898,<<7899>>>>
  ,<<7900,<<7901>>>>,<<7902,<<7903>>>>,<<7904,<<7905>>>>,<<7906,<<7907>>>>,<<7908,<<7909>>>>
  ,<<7910,<<7911>>>>,<<7912,<<7913>>>>,<<7914,<<7915>>>>,<<7916,<<7917>>>>,<<7918,<<7919>>>>
  ,<<7920,<<7921>>>>,<<7922,<<7923>>>>,<<7924,<<7925>>>>,<<7926,<<7927>>>>,<<7928,<<7929>>>>
  ,<<7930,<<7931>>>>,<<7932,<<7933>>>>,<<7934,<<7935>>>>,<<7944,<<7936>>>>,<<7945,<<7937>>>>
  ,<<7946,<<7938>>>>,<<7947,<<7939>>>>,<<7948,<<7940>>>>,<<7949,<<7941>>>>,<<7950,<<7942>>>>
  ,<<7951,<<7943>>>>,<<7960,<<7952>>>>,<<7961,<<7953>>>>,<<7962,<<7954>>>>,<<7963,<<7955>>>>
  ,<<7964,<<7956>>>>,<<7965,<<7957>>>>,<<7976,<<7968>>>>,<<7977,<<7969>>>>,<<7978,<<7970>>>>
  ,<<7979,<<7971>>>>,<<7980,<<7972>>>>,<<7981,<<7973>>>>,<<7982,<<7974>>>>,<<7983,<<7975>>>>
  ,<<7992,<<7984>>>>,<<7993,<<7985>>>>,<<7994,<<7986>>>>,<<7995,<<7987>>>>,<<7996,<<7988>>>>
  ,<<7997,<<7989>>>>,<<7998,<<7990>>>>,<<7999,<<7991>>>>,<<8008,<<8000>>>>,<<8009,<<8001>>>>
  ,<<8010,<<8002>>>>,<<8011,<<8003>>>>,<<8012,<<8004>>>>,<<8013,<<8005>>>>,<<8025,<<8017>>>>
  ,<<8027,<<8019>>>>,<<8029,<<8021>>>>,<<8031,<<8023>>>>,<<8040,<<8032>>>>,<<8041,<<8033>>>>
  ,<<8042,<<8034>>>>,<<8043,<<8035>>>>,<<8044,<<8036>>>>,<<8045,<<8037>>>>,<<8046,<<8038>>>>
  ,<<8047,<<8039>>>>,<<8072,<<8064>>>>,<<8073,<<8065>>>>,<<8074,<<8066>>>>,<<8075,<<8067>>>>
  ,<<8076,<<8068>>>>,<<8077,<<8069>>>>,<<8078,<<8070>>>>,<<8079,<<8071>>>>,<<8088,<<8080>>>>
  ,<<8089,<<8081>>>>,<<8090,<<8082>>>>,<<8091,<<8083>>>>,<<8092,<<8084>>>>,<<8093,<<8085>>>>
  ,<<8094,<<8086>>>>,<<8095,<<8087>>>>,<<8104,<<8096>>>>,<<8105,<<8097>>>>,<<8106,<<8098>>>>
  ,<<8107,<<8099>>>>,<<8108,<<8100>>>>,<<8109,<<8101>>>>,<<8110,<<8102>>>>,<<8111,<<8103>>>>
  ,<<8120,<<8112>>>>,<<8121,<<8113>>>>,<<8122,<<8048>>>>,<<8123,<<8049>>>>,<<8124,<<8115>>>>
  ,<<8136,<<8050>>>>,<<8137,<<8051>>>>,<<8138,<<8052>>>>,<<8139,<<8053>>>>,<<8140,<<8131>>>>
  ,<<8152,<<8144>>>>,<<8153,<<8145>>>>,<<8154,<<8054>>>>,<<8155,<<8055>>>>,<<8168,<<8160>>>>
  ,<<8169,<<8161>>>>,<<8170,<<8058>>>>,<<8171,<<8059>>>>,<<8172,<<8165>>>>,<<8184,<<8056>>>>
  ,<<8185,<<8057>>>>,<<8186,<<8060>>>>,<<8187,<<8061>>>>,<<8188,<<8179>>>>,<<8486,<<969>>>>
  ,<<8490,<<107>>>>,<<8491,<<229>>>>,<<8498,<<8526>>>>,<<8544,<<8560>>>>,<<8545,<<8561>>>>
  ,<<8546,<<8562>>>>,<<8547,<<8563>>>>,<<8548,<<8564>>>>,<<8549,<<8565>>>>,<<8550,<<8566>>>>
  ,<<8551,<<8567>>>>,<<8552,<<8568>>>>,<<8553,<<8569>>>>,<<8554,<<8570>>>>,<<8555,<<8571>>>>
  ,<<8556,<<8572>>>>,<<8557,<<8573>>>>,<<8558,<<8574>>>>,<<8559,<<8575>>>>,<<8579,<<8580>>>>
  ,<<9398,<<9424>>>>,<<9399,<<9425>>>>,<<9400,<<9426>>>>,<<9401,<<9427>>>>,<<9402,<<9428>>>>
  ,<<9403,<<9429>>>>,<<9404,<<9430>>>>,<<9405,<<9431>>>>,<<9406,<<9432>>>>,<<9407,<<9433>>>>
  ,<<9408,<<9434>>>>,<<9409,<<9435>>>>,<<9410,<<9436>>>>,<<9411,<<9437>>>>,<<9412,<<9438>>>>
  ,<<9413,<<9439>>>>,<<9414,<<9440>>>>,<<9415,<<9441>>>>,<<9416,<<9442>>>>,<<9417,<<9443>>>>
  ,<<9418,<<9444>>>>,<<9419,<<9445>>>>,<<9420,<<9446>>>>,<<9421,<<9447>>>>,<<9422,<<9448>>>>
  ,<<9423,<<9449>>>>,<<65313,<<65345>>>>,<<65314,<<65346>>>>,<<65315,<<65347>>>>,<<65316,<<65348>>>>
  ,<<65317,<<65349>>>>,<<65318,<<65350>>>>,<<65319,<<65351>>>>,<<65320,<<65352>>>>
  ,<<65321,<<65353>>>>,<<65322,<<65354>>>>,<<65323,<<65355>>>>,<<65324,<<65356>>>>
  ,<<65325,<<65357>>>>,<<65326,<<65358>>>>,<<65327,<<65359>>>>,<<65328,<<65360>>>>
  ,<<65329,<<65361>>>>,<<65330,<<65362>>>>,<<65331,<<65363>>>>,<<65332,<<65364>>>>
  ,<<65333,<<65365>>>>,<<65334,<<65366>>>>,<<65335,<<65367>>>>,<<65336,<<65368>>>>
  ,<<65337,<<65369>>>>,<<65338,<<65370>>>>,<<66560,<<66600>>>>,<<66561,<<66601>>>>
  ,<<66562,<<66602>>>>,<<66563,<<66603>>>>,<<66564,<<66604>>>>,<<66565,<<66605>>>>
  ,<<66566,<<66606>>>>,<<66567,<<66607>>>>,<<66568,<<66608>>>>,<<66569,<<66609>>>>
  ,<<66570,<<66610>>>>,<<66571,<<66611>>>>,<<66572,<<66612>>>>,<<66573,<<66613>>>>
  ,<<66574,<<66614>>>>,<<66575,<<66615>>>>,<<66576,<<66616>>>>,<<66577,<<66617>>>>
  ,<<66578,<<66618>>>>,<<66579,<<66619>>>>,<<66580,<<66620>>>>,<<66581,<<66621>>>>
  ,<<66582,<<66622>>>>,<<66583,<<66623>>>>,<<66584,<<66624>>>>,<<66585,<<66625>>>>
  ,<<66586,<<66626>>>>,<<66587,<<66627>>>>,<<66588,<<66628>>>>,<<66589,<<66629>>>>
  ,<<66590,<<66630>>>>,<<66591,<<66631>>>>,<<66592,<<66632>>>>,<<66593,<<66633>>>>
  ,<<66594,<<66634>>>>,<<66595,<<66635>>>>,<<66596,<<66636>>>>,<<66597,<<66637>>>>
  ,<<66598,<<66638>>>>,<<66599,<<66639>>>>
 >>
NonAsciiLowercaseFn == [c \in {NonAsciiLowercasePairs[i][1] : i \in 1..Len(NonAsciiLowercasePairs)} |->
   NonAsciiLowercasePairs[CHOOSE i \in 1..Len(NonAsciiLowercasePairs) : NonAsciiLowercasePairs[i][1] = c][2]]
NonAsciiUppercasePairs == <<
  <<181,<<924>>>>,<<223,<<83,83>>>>,<<224,<<192>>>>,<<225,<<193>>>>,<<226,<<194>>>>,<<227,<<195>>>>
  ,<<228,<<196>>>>,<<229,<<197>>>>,<<230,<<198>>>>,<<231,<<199>>>>,<<232,<<200>>>>,<<233,<<201>>>>
  ,<<234,<<202>>>>,<<235,<<203>>>>,<<236,<<204>>>>,<<237,<<205>>>>,<<238,<<206>>>>,<<239,<<207>>>>
  ,<<240,<<208>>>>,<<241,<<209>>>>,<<242,<<210>>>>,<<243,<<211>>>>,<<244,<<212>>>>,<<245,<<213>>>>
  ,<<246,<<214>>>>,<<248,<<216>>>>,<<249,<<217>>>>,<<250,<<218>>>>,<<251,<<219>>>>,<<252,<<220>>>>
  ,<<253,<<221>>>>,<<254,<<222>>>>,<<255,<<376>>>>,<<257,<<256>>>>,<<259,<<258>>>>,<<261,<<260>>>>
  ,<<263,<<262>>>>,<<265,<<264>>>>,<<267,<<266>>>>,<<269,<<268>>>>,<<271,<<270>>>>,<<273,<<272>>>>
  ,<<275,<<274>>>>,<<277,<<276>>>>,<<279,<<278>>>>,<<281,<<280>>>>,<<283,<<282>>>>,<<285,<<284>>>>
  ,<<287,<<286>>>>,<<289,<<288>>>>,<<291,<<290>>>>,<<293,<<292>>>>,<<295,<<294>>>>,<<297,<<296>>>>
  ,<<299,<<298>>>>,<<301,<<300>>>>,<<303,<<302>>>>,<<305,<<73>>>>,<<307,<<306>>>>,<<309,<<308>>>>
  ,<<311,<<310>>>>,<<314,<<313>>>>,<<316,<<315>>>>,<<318,<<317>>>>,<<320,<<319>>>>,<<322,<<321>>>>
  ,<<324,<<323>>>>,<<326,<<325>>>>,<<328,<<327>>>>,<<329,<<700,78>>>>,<<331,<<330>>>>
  ,<<333,<<332>>>>,<<335,<<334>>>>,<<337,<<336>>>>,<<339,<<338>>>>,<<341,<<340>>>>,<<343,<<342>>>>
  ,<<345,<<344>>>>,<<347,<<346>>>>,<<349,<<348>>>>,<<351,<<350>>>>,<<353,<<352>>>>,<<355,<<354>>>>
  ,<<357,<<356>>>>,<<359,<<358>>>>,<<361,<<360>>>>,<<363,<<362>>>>,<<365,<<364>>>>,<<367,<<366>>>>
  ,<<369,<<368>>>>,<<371,<<370>>>>,<<373,<<372>>>>,<<375,<<374>>>>,<<378,<<377>>>>,<<380,<<379>>>>
  ,<<382,<<381>>>>,<<383,<<83>>>>,<<384,<<579>>>>,<<387,<<386>>>>,<<389,<<388>>>>,<<392,<<391>>>>
  ,<<396,<<395>>>>,<<402,<<401>>>>,<<405,<<502>>>>,<<409,<<408>>>>,<<410,<<573>>>>,<<411,<<42972>>>>
  ,<<414,<<544>>>>,<<417,<<416>>>>,<<419,<<418>>>>,<<421,<<420>>>>,<<424,<<423>>>>,<<429,<<428>>>>
  ,<<432,<<431>>>>,<<436,<<435>>>>,<<438,<<437>>>>,<<441,<<440>>>>,<<445,<<444>>>>,<<447,<<503>>>>
  ,<<453,<<452>>>>,<<454,<<452>>>>,<<456,<<455>>>>,<<457,<<455>>>>,<<459,<<458>>>>,<<460,<<458>>>>
  ,<<462,<<461>>>>,<<464,<<463>>>>,<<466,<<465>>>>,<<468,<<467>>>>,<<470,<<469>>>>,<<472,<<471>>>>
  ,<<474,<<473>>>>,<<476,<<475>>>>,<<477,<<398>>>>,<<479,<<478>>>>,<<481,<<480>>>>,<<483,<<482>>>>
  ,<<485,<<484>>>>,<<487,<<486>>>>,<<489,<<488>>>>,<<491,<<490>>>>,<<493,<<492>>>>,<<495,<<494>>>>
  ,<<496,<<74,780>>>>,<<498,<<497>>>>,<<499,<<497>>>>,<<501,<<500>>>>,<<505,<<504>>>>
  ,<<507,<<506>>>>,<<509,<<508>>>>,<<511,<<510>>>>,<<513,<<512>>>>,<<515,<<514>>>>,<<517,<<516>>>>
  ,<<519,<<518>>>>,<<521,<<520>>>>,<<523,<<522>>>>,<<525,<<524>>>>,<<527,<<526>>>>,<<529,<<528>>>>
  ,<<531,<<530>>>>,<<533,<<532>>>>,<<535,<<534>>>>,<<537,<<536>>>>,<<539,<<538>>>>,<<541,<<540>>>>
  ,<<543,<<542>>>>,<<547,<<546>>>>,<<549,<<548>>>>,<<551,<<550>>>>,<<553,<<552>>>>,<<555,<<554>>>>
  ,<<557,<<556>>>>,<<559,<<558>>>>,<<561,<<560>>>>,<<563,<<562>>>>,<<572,<<571>>>>,<<575,<<11390>>>>
  ,<<576,<<11391>>>>,<<578,<<577>>>>,<<583,<<582>>>>,<<585,<<584>>>>,<<587,<<586>>>>,<<589,<<588>>>>
  ,<<591,<<590>>>>,<<592,<<11375>>>>,<<593,<<11373>>>>,<<594,<<11376>>>>,<<595,<<385>>>>
  ,<<596,<<390>>>>,<<598,<<393>>>>,<<599,<<394>>>>,<<601,<<399>>>>,<<603,<<400>>>>,<<604,<<42923>>>>
  ,<<608,<<403>>>>,<<609,<<42924>>>>,<<611,<<404>>>>,<<612,<<42955>>>>,<<613,<<42893>>>>
  ,<<614,<<42922>>>>,<<616,<<407>>>>,<<617,<<406>>>>,<<618,<<42926>>>>,<<619,<<11362>>>>
  ,<<620,<<42925>>>>,<<623,<<412>>>>,<<625,<<11374>>>>,<<626,<<413>>>>,<<629,<<415>>>>
  ,<<637,<<11364>>>>,<<640,<<422>>>>,<<642,<<42949>>>>,<<643,<<425>>>>,<<647,<<42929>>>>
  ,<<648,<<430>>>>,<<649,<<580>>>>,<<650,<<433>>>>,<<651,<<434>>>>,<<652,<<581>>>>,<<658,<<439>>>>
  ,<<669,<<42930>>>>,<<670,<<42928>>>>,<<837,<<921>>>>,<<881,<<880>>>>,<<883,<<882>>>>
  ,<<887,<<886>>>>,<<891,<<1021>>>>,<<892,<<1022>>>>,<<893,<<1023>>>>,<<912,<<921,776,769>>>>
  ,<<940,<<902>>>>,<<941,<<904>>>>,<<942,<<905>>>>,<<943,<<906>>>>,<<944,<<933,776,769>>>>
  ,<<945,<<913>>>>,<<946,<<914>>>>,<<947,<<915>>>>,<<948,<<916>>>>,<<949,<<917>>>>,<<950,<<918>>>>
  ,<<951,<<919>>>>,<<952,<<920>>>>,<<953,<<921>>>>,<<954,<<922>>>>,<<955,<<923>>>>,<<956,<<924>>>>
  ,<<957,<<925>>>>,<<958,<<926>>>>,<<959,<<927>>>>,<<960,<<928>>>>,<<961,<<929>>>>,<<962,<<931>>>>
  ,<<963,<<931>>>>,<<964,<<932>>>>,<<965,<<933>>>>,<<966,<<934>>>>,<<967,<<935>>>>,<<968,<<936>>>>
  ,<<969,<<937>>>>,<<970,<<938>>>>,<<971,<<939>>>>,<<972,<<908>>>>,<<973,<<910>>>>,<<974,<<911>>>>
  ,<<976,<<914>>>>,<<977,<<920>>>>,<<981,<<934>>>>,<<982,<<928>>>>,<<983,<<975>>>>,<<985,<<984>>>>
  ,<<987,<<986>>>>,<<989,<<988>>>>,<<991,<<990>>>>,<<993,<<992>>>>,<<995,<<994>>>>,<<997,<<996>>>>
  ,<<999,<<998>>>>,<<1001,<<1000>>>>,<<1003,<<1002>>>>,<<1005,<<1004>>>>,<<1007,<<1006>>>>
  ,<<1008,<<922>>>>,<<1009,<<929>>>>,<<1010,<<1017>>>>,<<1011,<<895>>>>,<<1013,<<917>>>>
  ,<<1016,<<1015>>>>,<<1019,<<1018>>>>,<<1072,<<1040>>>>,<<1073,<<1041>>>>,<<1074,<<1042>>>>
  ,<<1075,<<1043>>>>,<<1076,<<1044>>>>,<<1077,<<1045>>>>,<<1078,<<1046>>>>,<<1079,<<1047>>>>
  ,<<1080,<<1048>>>>,<<1081,<<1049>>>>,<<1082,<<1050>>>>,<<1083,<<1051>>>>,<<1084,<<1052>>>>
  ,<<1085,<<1053>>>>,<<1086,<<1054>>>>,<<1087,<<1055>>>>,<<1088,<<1056>>>>,<<1089,<<1057>>>>
  ,<<1090,<<1058>>>>,<<1091,<<1059>>>>,<<1092,<<1060>>>>,<<1093,<<1061>>>>,<<1094,<<1062>>>>
  ,<<1095,<<1063>>>>,<<1096,<<1064>>>>,<<1097,<<1065>>>>,<<1098,<<1066>>>>,<<1099,<<1067>>>>
  ,<<1100,<<1068>>>>,<<1101,<<1069>>>>,<<1102,<<1070>>>>,<<1103,<<1071>>>>,<<1104,<<1024>>>>
  ,<<1105,<<1025>>>>,<<1106,<<1026>>>>,<<1107,<<1027>>>>,<<1108,<<1028>>>>,<<1109,<<1029>>>>
  ,<<1110,<<1030>>>>,<<1111,<<1031>>>>,<<1112,<<1032>>>>,<<1113,<<1033>>>>,<<1114,<<1034>>>>
  ,<<1115,<<1035>>>>,<<1116,<<1036>>>>,<<1117,<<1037>>>>,<<1118,<<1038>>>>,<<1119,<<1039>>>>
  ,<<1121,<<1120>>>>,<<1123,<<1122>>>>,<<1125,<<1124>>>>,<<1127,<<1126>>>>,<<1129,<<1128>>>>
  ,<<1131,<<1130>>>>,<<1133,<<1132>>>>,<<1135,<<1134>>>>,<<1137,<<1136>>>>,<<1139,<<1138>>>>
  ,<<1141,<<1140>>>>,<<1143,<<1142>>>>,<<1145,<<1144>>>>,<<1147,<<1146>>>>,<<1149,<<1148>>>>
  ,<<1151,<<1150>>>>,<<1153,<<1152>>>>,<<1163,<<1162>>>>,<<1165,<<1164>>>>,<<1167,<<1166>>>>
  ,<<1169,<<1168>>>>,<<1171,<<1170>>>>,<<1173,<<1172>>>>,<<1175,<<1174>>>>,<<1177,<<1176>>>>
  ,<<1179,<<1178>>>>,<<1181,<<1180>>>>,<<1183,<<1182>>>>,<<1185,<<1184>>>>,<<1187,<<1186>>>>
  ,<<1189,<<1188>>>>,<<1191,<<1190>>>>,<<1193,<<1192>>>>,<<1195,<<1194>>>>,<<1197,<<1196>>>>
  ,<<1199,<<1198>>>>,<<1201,<<1200>>>>,<<1203,<<1202>>>>,<<1205,<<1204>>>>,<<1207,<<1206>>>>
  ,<<1209,<<1208>>>>,<<1211,<<1210>>>>,<<1213,<<1212>>>>,<<1215,<<1214>>>>,<<1218,<<1217>>>>
  ,<<1220,<<1219>>>>,<<1222,<<1221>>>>,<<1224,<<1223>>>>,<<1226,<<1225>>>>,<<1228,<<1227>>>>
  ,<<1230,<<1229>>>>,<<1231,<<1216>>>>,<<1233,<<1232>>>>,<<1235,<<1234>>>>,<<1237,<<1236>>>>
  ,<<1239,<<1238>>>>,<<1241,<<1240>>>>,<<1243,<<1242>>>>,<<1245,<<1244>>>>,<<1247,<<1246>>>>
  ,<<1249,<<1248>>>>,<<1251,<<1250>>>>,<<1253,<<1252>>>>,<<1255,<<1254>>>>,<<1257,<<1256>>>>
  ,<<1259,<<1258>>>>,<<1261,<<1260>>>>,<<1263,<<1262>>>>,<<1265,<<1264>>>>,<<1267,<<1266>>>>
  ,<<1269,<<1268>>>>,<<1271,<<1270>>>>,<<1273,<<1272>>>>,<<1275,<<1274>>>>,<<1277,<<1276>>>>
  ,<<1279,<<1278>>>>,<<1281,<<1280>>>>,<<1283,<<1282>>>>,<<1285,<<1284>>>>,<<1287,<<1286>>>>
  ,<<1289,<<1288>>>>,<<1291,<<1290>>>>,<<1293,<<1292>>>>,<<1295,<<1294>>>>,<<1297,<<1296>>>>
  ,<<1299,<<1298>>>>,<<1301,<<1300>>>>,<<1303,<<1302>>>>,<<1305,<<1304>>>>,<<1307,<<1306>>>>
  ,<<1309,<<1308>>>>,<<1311,<<1310>>>>,<<1313,<<1312>>>>,<<1315,<<1314>>>>,<<1317,<<1316>>>>
  ,<<1319,<<1318>>>>,<<1321,<<1320>>>>,<<1323,<<1322>>>>,<<1325,<<1324>>>>,<<1327,<<1326>>>>
  ,<<1377,<<1329>>>>,<<1378,<<1330>>>>,<<1379,<<1331>>>>,<<1380,<<1332>>>>,<<1381,<<1333>>>>
  ,<<1382,<<1334>>>>,<<1383,<<1335>>>>,<<1384,<<1336>>>>,<<1385,<<1337>>>>,<<1386,<<1338>>>>
  ,<<1387,<<1339>>>>,<<1388,<<1340>>>>,<<1389,<<1341>>>>,<<1390,<<1342>>>>,<<1391,<<1343>>>>
  ,<<1392,<<1344>>>>,<<1393,<<1345>>>>,<<1394,<<1346>>>>,<<1395,<<1347>>>>,<<1396,<<1348>>>>
  ,<<1397,<<1349>>>>,<<1398,<<1350>>>>,<<1399,<<1351>>>>,<<1400,<<1352>>>>,<<1401,<<1353>>>>
  ,<<1402,<<1354>>>>,<<1403,<<1355>>>>,<<1404,<<1356>>>>,<<1405,<<1357>>>>,<<1406,<<1358>>>>
  ,<<1407,<<1359>>>>,<<1408,<<1360>>>>,<<1409,<<1361>>>>,<<1410,<<1362>>>>,<<1411,<<1363>>>>
  ,<<1412,<<1364>>>>,<<1413,<<1365>>>>,<<1414,<<1366>>>>,<<1415,<<1333,1362>>>>,<<4304,<<7312>>>>
  ,<<4305,<<7313>>>>,<<4306,<<7314>>>>,<<4307,<<7315>>>>,<<4308,<<7316>>>>,<<4309,<<7317>>>>
  ,<<4310,<<7318>>>>,<<4311,<<7319>>>>,<<4312,<<7320>>>>,<<4313,<<7321>>>>,<<4314,<<7322>>>>
  ,<<4315,<<7323>>>>,<<4316,<<7324>>>>,<<4317,<<7325>>>>,<<4318,<<7326>>>>,<<4319,<<7327>>>>
  ,<<4320,<<7328>>>>,<<4321,<<7329>>>>,<<4322,<<7330>>>>,<<4323,<<7331>>>>,<<4324,<<7332>>>>
  ,<<4325,<<7333>>>>,<<4326,<<7334>>>>,<<4327,<<7335>>>>,<<4328,<<7336>>>>,<<4329,<<7337>>>>
  ,<<4330,<<7338>>>>,<<4331,<<7339>>>>,<<4332,<<7340>>>>,<<4333,<<7341>>>>,<<4334,<<7342>>>>
  ,<<4335,<<7343>>>>,<<4336,<<7344>>>>,<<4337,<<7345>>>>,<<4338,<<7346>>>>,<<4339,<<7347>>>>
  ,<<4340,<<7348>>>>,<<4341,<<7349>>>>,<<4342,<<7350>>>>,<<4343,<<7351>>>>,<<4344,<<7352>>>>
  ,<<4345,<<7353>>>>,<<4346,<<7354>>>>,<<4349,<<7357>>>>,<<4350,<<7358>>>>,<<4351,<<7359>>>>
  ,<<7681,<<7680>>>>,<<7683,<<7682>>>>,<<7685,<<7684>>>>,<<7687,<<7686>>>>,<<7689,<<7688>>>>
  ,<<7691,<<7690>>>>,<<7693,<<7692>>>>,<<7695,<<7694>>>>,<<7697,<<7696>>>>,<<7699,<<7698>>>>
  ,<<7701,<<7700>>>>,<<7703,<<7702>>>>,<<7705,<<7704>>>>,<<7707,<<7706>>>>,<<7709,<<7708>>>>
  ,<<7711,<<7710>>>>,<<7713,<<7712>>>>,<<7715,<<7714>>>>,<<7717,<<7716>>>>,<<7719,<<7718>>>>
  ,<<7721,<<7720>>>>,<<7723,<<7722>>>>,<<7725,<<7724>>>>,<<7727,<<7726>>>>,<<7729,<<7728>>>>
  ,<<7731,<<7730>>>>,<<7733,<<7732>>>>,<<7735,<<7734>>>>,<<7737,<<7736>>>>,<<7739,<<7738>>>>
  ,<<7741,<<7740>>>>,<<7743,<<7742>>>>,<<7745,<<7744>>>>,<<7747,<<7746>>>>,<<7749,<<7748>>>>
  ,<<7751,<<7750>>>>,<<7753,<<7752>>>>,<<7755,<<7754>>>>,<<7757,<<7756>>>>,<<7759,<<7758>>>>
  ,<<7761,<<7760>>>>,<<7763,<<7762>>>>,<<7765,<<7764>>>>,<<7767,<<7766>>>>,<<7769,<<7768>>>>
  ,<<7771,<<7770>>>>,<<7773,<<7772>>>>,<<7775,<<7774>>>>,<<7777,<<7776>>>>,<<7779,<<7778>>>>
  ,<<7781,<<7780>>>>,<<7783,<<7782>>>>,<<7785,<<7784>>>>,<<7787,<<7786>>>>,<<7789,<<7788>>>>
  ,<<7791,<<7790>>>>,<<7793,<<7792>>>>,<<7795,<<7794>>>>,<<7797,<<7796>>>>,<<7799,<<7798>>>>
  ,<<7801,<<7800>>>>,<<7803,<<7802>>>>,<<7805,<<7804>>>>,<<7807,<<7806>>>>,<<7809,<<7808>>>>
  ,<<7811,<<7810>>>>,<<7813,<<7812>>>>,<<7815,<<7814>>>>,<<7817,<<7816>>>>,<<7819,<<7818>>>>
  ,<<7821,<<7820>>>>,<<7823,<<7822>>>>,<<7825,<<7824>>>>,<<7827,<<7826>>>>,<<7829,<<7828>>>>
  ,<<7830,<<72,817>>>>,<<7831,<<84,776>>>>,<<7832,<<87,778>>>>,<<7833,<<89,778>>>>
  ,<<7834,<<65,702>>>>,<<7835,<<7776>>>>,<<7841,<<7840>>>>,<<7843,<<7842>>>>,<<7845,<<7844>>>>
  ,<<7847,<<7846>>>>,<<7849,<<7848>>>>,<<7851,<<7850>>>>,<<7853,<<7852>>>>,<<7855,<<7854>>>>
  ,<<7857,<<7856>>>>,<<7859,<<7858>>>>,<<7861,<<7860>>>>,<<7863,<<7862>>>>,<<7865,<<7864>>>>
  ,<<7867,<<7866>>>>,<<7869,<<7868>>>>,<<7871,<<7870>>>>,<<7873,<<7872>>>>,<<7875,<<7874>>>>
  ,<<7877,<<7876>>>>,<<7879,<<7878>>>>,<<7881,<<7880>>>>,<<7883,<<7882>>>>,<<7885,<<7884>>>>
  ,<<7887,<<7886>>>>,<<7889,<<7888>>>>,<<7891,<<7890>>>>,<<7893,<<7892>>>>,<<7895,<<7894>>>>
  ,<<7897,<<7896>>>>,<<7899,<<7898>>>>,<<7901,<<7900>>>>,<<7903,<<7902>>>>,<<7905,<<7904>>>>
  ,<<7907,<<7906>>>>,<<7909,<<7908>>>>,<<7911,<<7910>>>>,<<7913,<<7912>>>>,<<7915,<<7914>>>>
  ,<<7917,<<7916>>>>,<<7919,<<7918>>>>,<<7921,<<7920>>>>,<<7923,<<7922>>>>,<<7925,<<7924>>>>
  ,<<7927,<<7926>>>>,<<7929,<<7928>>>>,<<7931,<<7930>>>>,<<7933,<<7932>>>>,<<7935,<<7934>>>>
  ,<<7936,<<7944>>>>,<<7937,<<7945>>>>,<<7938,<<7946>>>>,<<7939,<<7947>>>>,<<7940,<<7948>>>>
  ,<<7941,<<7949>>>>,<<7942,<<7950>>>>,<<7943,<<7951>>>>,<<7952,<<7960>>>>,<<7953,<<7961>>>>
  ,<<7954,<<7962>>>>,<<7955,<<7963>>>>,<<7956,<<7964>>>>,<<7957,<<7965>>>>,<<7968,<<7976>>>>
  ,<<7969,<<7977>>>>,<<7970,<<7978>>>>,<<7971,<<7979>>>>,<<7972,<<7980>>>>,<<7973,<<7981>>>>
  ,<<7974,<<7982>>>>,<<7975,<<7983>>>>,<<7984,<<7992>>>>,<<7985,<<7993>>>>,<<7986,<<7994>>>>
  ,<<7987,<<7995>>>>,<<7988,<<7996>>>>,<<7989,<<7997>>>>,<<7990,<<7998>>>>,<<7991,<<7999>>>>
  ,<<8000,<<8008>>>>,<<8001,<<8009>>>>,<<8002,<<8010>>>>,<<8003,<<8011>>>>,<<8004,<<8012>>>>
  ,<<8005,<<8013>>>>,<<8016,<<933,787>>>>,<<8017,<<8025>>>>,<<8018,<<933,787,768>>>>
  ,<<8019,<<8027>>>>,<<8020,<<933,787,769>>>>,<<8021,<<8029>>>>,<<8022,<<933,787,834>>>>
  ,<<8023,<<8031>>>>,<<8032,<<8040>>>>,<<8033,<<8041>>>>,<<8034,<<8042>>>>,<<8035,<<8043>>>>
  ,<<8036,<<8044>>>>,<<8037,<<8045>>>>,<<8038,<<8046>>>>,<<8039,<<8047>>>>,<<8048,<<8122>>>>
  ,<<8049,<<8123>>>>,<<8050,<<8136>>>>,<<8051,<<8137>>>>,<<8052,<<8138>>>>,<<8053,<<8139>>>>
  ,<<8054,<<8154>>>>,<<8055,<<8155>>>>,<<8056,<<8184>>>>,<<8057,<<8185>>>>,<<8058,<<8170>>>>
  ,<<8059,<<8171>>>>,<<8060,<<8186>>>>,<<8061,<<8187>>>>,<<8064,<<7944,921>>>>,<<8065,<<7945,921>>>>
  ,<<8066,<<7946,921>>>>,<<8067,<<7947,921>>>>,<<8068,<<7948,921>>>>,<<8069,<<7949,921>>>>
  ,<<8070,<<7950,921>>>>,<<8071,<<7951,921>>>>,<<8072,<<7944,921>>>>,<<8073,<<7945,921>>>>
  ,<<8074,<<7946,921>>>>,<<8075,<<7947,921>>>>,<<8076,<<7948,921>>>>,<<8077,<<7949,921>>>>
  ,<<8078,<<7950,921>>>>,<<8079,<<7951,921>>>>,<<8080,<<7976,921>>>>,<<8081,<<7977,921>>>>
  ,<<8082,<<7978,921>>>>,<<8083,<<7979,921>>>>,<<8084,<<7980,921>>>>,<<8085,<<7981,921>>>>
  ,<<8086,<<7982,921>>>>,<<8087,<<7983,921>>>>,<<8088,<<7976,921>>>>,<<8089,<<7977,921>>>>
  ,<<8090,<<7978,921>>>>,<<8091,<<7979,921>>>>,<<8092,<<7980,921>>>>,<<8093,<<7981,921>>>>
  ,<<8094,<<7982,921>>>>,<<8095,<<7983,921>>>>,<<8096,<<8040,921>>>>,<<8097,<<8041,921>>>>
  ,<<8098,<<8042,921>>>>,<<8099,<<8043,921>>>>,<<8100,<<8044,921>>>>,<<8101,<<8045,921>>>>
  ,<<8102,<<8046,921>>>>,<<8103,<<8047,921>>>>,<<8104,<<8040,921>>>>,<<8105,<<8041,921>>>>
  ,<<8106,<<8042,921>>>>,<<8107,<<8043,921>>>>,<<8108,<<8044,921>>>>,<<8109,<<8045,921>>>>
  ,<<8110,<<8046,921>>>>,<<8111,<<8047,921>>>>,<<8112,<<8120>>>>,<<8113,<<8121>>>>
  ,<<8114,<<8122,921>>>>,<<8115,<<913,921>>>>,<<8116,<<902,921>>>>,<<8118,<<913,834>>>>
  ,<<8119,<<913,834,921>>>>,<<8124,<<913,921>>>>,<<8126,<<921>>>>,<<8130,<<8138,921>>>>
  ,<<8131,<<919,921>>>>,<<8132,<<905,921>>>>,<<8134,<<919,834>>>>,<<8135,<<919,834,921>>>>
  ,<<8140,<<919,921>>>>,<<8144,<<8152>>>>,<<8145,<<8153>>>>,<<8146,<<921,776,768>>>>
  ,<<8147,<<921,776,769>>>>,<<8150,<<921,834>>>>,<<8151,<<921,776,834>>>>,<<8160,<<8168>>>>
  ,<<8161,<<8169>>>>,<<8162,<<933,776,768>>>>,<<8163,<<933,776,769>>>>,<<8164,<<929,787>>>>
  ,<<8165,<<8172>>>>,<<8166,<<933,834>>>>,<<8167,<<933,776,834>>>>,<<8178,<<8186,921>>>>
  ,<<8179,<<937,921>>>>,<<8180,<<911,921>>>>,<<8182,<<937,834>>>>,<<8183,<<937,834,921>>>>
  ,<<8188,<<937,921>>>>,<<8526,<<8498>>>>,<<8560,<<8544>>>>,<<8561,<<8545>>>>,<<8562,<<8546>>>>
  ,<<8563,<<8547>>>>,<<8564,<<8548>>>>,<<8565,<<8549>>>>,<<8566,<<8550>>>>,<<8567,<<8551>>>>
  ,<<8568,<<8552>>>>,<<8569,<<8553>>>>,<<8570,<<8554>>>>,<<8571,<<8555>>>>,<<8572,<<8556>>>>
  ,<<8573,<<8557>>>>,<<8574,<<8558>>>>,<<8575,<<8559>>>>,<<8580,<<8579>>>>,<<9424,<<9398>>>>
  ,<<9425,<<9399>>>>,<<9426,<<9400>>>>,<<9427,<<9401>>>>,<<9428,<<9402>>>>,<<9429,<<9403>>>>
  ,<<9430,<<9404>>>>,<<9431,<<9405>>>>,<<9432,<<9406>>>>,<<9433,<<9407>>>>,<<9434,<<9408>>>>
  ,<<9435,<<9409>>>>,<<9436,<<9410>>>>,<<9437,<<9411>>>>,<<9438,<<9412>>>>,<<9439,<<9413>>>>
  ,<<9440,<<9414>>>>,<<9441,<<9415>>>>,<<9442,<<9416>>>>,<<9443,<<9417>>>>,<<9444,<<9418>>>>
  ,<<9445,<<9419>>>>,<<9446,<<9420>>>>,<<9447,<<9421>>>>,<<9448,<<9422>>>>,<<9449,<<9423>>>>
  ,<<64256,<<70,70>>>>,<<64257,<<70,73>>>>,<<64258,<<70,76>>>>,<<64259,<<70,70,73>>>>
  ,<<64260,<<70,70,76>>>>,<<64261,<<83,84>>>>,<<64262,<<83,84>>>>,<<65345,<<65313>>>>
  ,<<65346,<<65314>>>>,<<65347,<<65315>>>>,<<65348,<<65316>>>>,<<65349,<<65317>>>>
  ,<<65350,<<65318>>>>,<<65351,<<65319>>>>,<<65352,<<65320>>>>,<<65353,<<65321>>>>
  ,<<65354,<<65322>>>>,<<65355,<<65323>>>>,<<65356,<<65324>>>>,<<65357,<<65325>>>>
  ,<<65358,<<65326>>>>,<<65359,<<65327>>>>,<<65360,<<65328>>>>,<<65361,<<65329>>>>
  ,<<65362,<<65330>>>>,<<65363,<<65331>>>>,<<65364,<<65332>>>>,<<65365,<<65333>>>>
  ,<<65366,<<65334>>>>,<<65367,<<65335>>>>,<<65368,<<65336>>>>,<<65369,<<65337>>>>
  ,<<65370,<<65338>>>>,<<66600,<<66560>>>>,<<66601,<<66561>>>>,<<66602,<<66562>>>>
  ,<<66603,<<66563>>>>,<<66604,<<66564>>>>,<<66605,<<66565>>>>,<<66606,<<66566>>>>
  ,<<66607,<<66567>>>>,<<66608,<<66568>>>>,<<66609,<<66569>>>>,<<66610,<<66570>>>>
  ,<<66611,<<66571>>>>,<<66612,<<66572>>>>,<<66613,<<66573>>>>,<<66614,<<66574>>>>
  ,<<66615,<<66575>>>>,<<66616,<<66576>>>>,<<66617,<<66577>>>>,<<66618,<<66578>>>>
  ,<<66619,<<66579>>>>,<<66620,<<66580>>>>,<<66621,<<66581>>>>,<<66622,<<66582>>>>
  ,<<66623,<<66583>>>>,<<66624,<<66584>>>>,<<66625,<<66585>>>>,<<66626,<<66586>>>>
  ,<<66627,<<66587>>>>,<<66628,<<66588>>>>,<<66629,<<66589>>>>,<<66630,<<66590>>>>
  ,<<66631,<<66591>>>>,<<66632,<<66592>>>>,<<66633,<<66593>>>>,<<66634,<<66594>>>>
  ,<<66635,<<66595>>>>,<<66636,<<66596>>>>,<<66637,<<66597>>>>,<<66638,<<66598>>>>
  ,<<66639,<<66599>>>>
 >>
NonAsciiUppercaseFn == [c \in {NonAsciiUppercasePairs[i][1] : i \in 1..Len(NonAsciiUppercasePairs)} |->
   NonAsciiUppercasePairs[CHOOSE i \in 1..Len(NonAsciiUppercasePairs) : NonAsciiUppercasePairs[i][1] = c][2]]
TranslitPairs == <<
  <<160,<<32>>>>,<<181,<<117>>>>,<<192,<<65>>>>,<<193,<<65>>>>,<<194,<<65>>>>,<<195,<<65>>>>
  ,<<196,<<65>>>>,<<197,<<65>>>>,<<198,<<65,69>>>>,<<199,<<67>>>>,<<200,<<69>>>>,<<201,<<69>>>>
  ,<<202,<<69>>>>,<<203,<<69>>>>,<<204,<<73>>>>,<<205,<<73>>>>,<<206,<<73>>>>,<<207,<<73>>>>
  ,<<209,<<78>>>>,<<210,<<79>>>>,<<211,<<79>>>>,<<212,<<79>>>>,<<213,<<79>>>>,<<214,<<79>>>>
  ,<<217,<<85>>>>,<<218,<<85>>>>,<<219,<<85>>>>,<<220,<<85>>>>,<<221,<<89>>>>,<<223,<<115,115>>>>
  ,<<224,<<97>>>>,<<225,<<97>>>>,<<226,<<97>>>>,<<227,<<97>>>>,<<228,<<97>>>>,<<229,<<97>>>>
  ,<<230,<<97,101>>>>,<<231,<<99>>>>,<<232,<<101>>>>,<<233,<<101>>>>,<<234,<<101>>>>,<<235,<<101>>>>
  ,<<236,<<105>>>>,<<237,<<105>>>>,<<238,<<105>>>>,<<239,<<105>>>>,<<241,<<110>>>>,<<242,<<111>>>>
  ,<<243,<<111>>>>,<<244,<<111>>>>,<<245,<<111>>>>,<<246,<<111>>>>,<<248,<<111>>>>,<<249,<<117>>>>
  ,<<250,<<117>>>>,<<251,<<117>>>>,<<252,<<117>>>>,<<253,<<121>>>>,<<255,<<121>>>>,<<256,<<65>>>>
  ,<<257,<<97>>>>,<<258,<<65>>>>,<<259,<<97>>>>,<<260,<<65>>>>,<<261,<<97>>>>,<<262,<<67>>>>
  ,<<263,<<99>>>>,<<264,<<67>>>>,<<265,<<99>>>>,<<266,<<67>>>>,<<267,<<99>>>>,<<268,<<67>>>>
  ,<<269,<<99>>>>,<<270,<<68>>>>,<<271,<<100>>>>,<<274,<<69>>>>,<<275,<<101>>>>,<<276,<<69>>>>
  ,<<277,<<101>>>>,<<278,<<69>>>>,<<279,<<101>>>>,<<280,<<69>>>>,<<281,<<101>>>>,<<282,<<69>>>>
  ,<<283,<<101>>>>,<<284,<<71>>>>,<<285,<<103>>>>,<<286,<<71>>>>,<<287,<<103>>>>,<<288,<<71>>>>
  ,<<289,<<103>>>>,<<290,<<71>>>>,<<291,<<103>>>>,<<292,<<72>>>>,<<293,<<104>>>>,<<295,<<104>>>>
  ,<<296,<<73>>>>,<<297,<<105>>>>,<<298,<<73>>>>,<<299,<<105>>>>,<<300,<<73>>>>,<<301,<<105>>>>
  ,<<302,<<73>>>>,<<303,<<105>>>>,<<304,<<73>>>>,<<308,<<74>>>>,<<309,<<106>>>>,<<310,<<75>>>>
  ,<<311,<<107>>>>,<<313,<<76>>>>,<<314,<<108>>>>,<<315,<<76>>>>,<<316,<<108>>>>,<<317,<<76>>>>
  ,<<318,<<108>>>>,<<323,<<78>>>>,<<324,<<110>>>>,<<325,<<78>>>>,<<326,<<110>>>>,<<327,<<78>>>>
  ,<<328,<<110>>>>,<<332,<<79>>>>,<<333,<<111>>>>,<<334,<<79>>>>,<<335,<<111>>>>,<<336,<<79>>>>
  ,<<337,<<111>>>>,<<340,<<82>>>>,<<341,<<114>>>>,<<342,<<82>>>>,<<343,<<114>>>>,<<344,<<82>>>>
  ,<<345,<<114>>>>,<<346,<<83>>>>,<<347,<<115>>>>,<<348,<<83>>>>,<<349,<<115>>>>,<<350,<<83>>>>
  ,<<351,<<115>>>>,<<352,<<83>>>>,<<353,<<115>>>>,<<354,<<84>>>>,<<355,<<116>>>>,<<356,<<84>>>>
  ,<<357,<<116>>>>,<<359,<<116>>>>,<<360,<<85>>>>,<<361,<<117>>>>,<<362,<<85>>>>,<<363,<<117>>>>
  ,<<364,<<85>>>>,<<365,<<117>>>>,<<366,<<85>>>>,<<367,<<117>>>>,<<368,<<85>>>>,<<369,<<117>>>>
  ,<<370,<<85>>>>,<<371,<<117>>>>,<<372,<<87>>>>,<<373,<<119>>>>,<<374,<<89>>>>,<<375,<<121>>>>
  ,<<376,<<89>>>>,<<377,<<90>>>>,<<378,<<122>>>>,<<379,<<90>>>>,<<380,<<122>>>>,<<381,<<90>>>>
  ,<<382,<<122>>>>,<<955,<<108>>>>,<<8211,<<45>>>>,<<8212,<<45,45>>>>,<<8216,<<39>>>>
  ,<<8217,<<39>>>>,<<8220,<<34>>>>,<<8221,<<34>>>>,<<8226,<<42>>>>,<<8230,<<46,46,46>>>>
  ,<<8364,<<69,85,82>>>>,<<8704,<<91,63,93>>>>,<<8705,<<91,63,93>>>>,<<8706,<<91,63,93>>>>
  ,<<8707,<<91,63,93>>>>,<<8708,<<91,63,93>>>>,<<8709,<<91,63,93>>>>,<<8710,<<91,63,93>>>>
  ,<<8711,<<91,63,93>>>>,<<8712,<<91,63,93>>>>,<<8713,<<91,63,93>>>>,<<8714,<<91,63,93>>>>
  ,<<8715,<<91,63,93>>>>,<<8716,<<91,63,93>>>>,<<8717,<<91,63,93>>>>,<<8718,<<91,63,93>>>>
  ,<<8719,<<91,63,93>>>>,<<8720,<<91,63,93>>>>,<<8721,<<91,63,93>>>>,<<8722,<<91,63,93>>>>
  ,<<8723,<<91,63,93>>>>,<<8724,<<91,63,93>>>>,<<8725,<<91,63,93>>>>,<<8726,<<91,63,93>>>>
  ,<<8727,<<91,63,93>>>>,<<8728,<<91,63,93>>>>,<<8729,<<91,63,93>>>>,<<8730,<<91,63,93>>>>
  ,<<8731,<<91,63,93>>>>,<<8732,<<91,63,93>>>>,<<8733,<<91,63,93>>>>,<<8734,<<91,63,93>>>>
  ,<<8735,<<91,63,93>>>>,<<8736,<<91,63,93>>>>,<<8737,<<91,63,93>>>>,<<8738,<<91,63,93>>>>
  ,<<8739,<<91,63,93>>>>,<<8740,<<91,63,93>>>>,<<8741,<<91,63,93>>>>,<<8742,<<91,63,93>>>>
  ,<<8743,<<91,63,93>>>>,<<8744,<<91,63,93>>>>,<<8745,<<91,63,93>>>>,<<8746,<<91,63,93>>>>
  ,<<8747,<<91,63,93>>>>,<<8748,<<91,63,93>>>>,<<8749,<<91,63,93>>>>,<<8750,<<91,63,93>>>>
  ,<<8751,<<91,63,93>>>>,<<8752,<<91,63,93>>>>,<<8753,<<91,63,93>>>>,<<8754,<<91,63,93>>>>
  ,<<8755,<<91,63,93>>>>,<<8756,<<91,63,93>>>>,<<8757,<<91,63,93>>>>,<<8758,<<91,63,93>>>>
  ,<<8759,<<91,63,93>>>>,<<8760,<<91,63,93>>>>,<<8761,<<91,63,93>>>>,<<8762,<<91,63,93>>>>
  ,<<8763,<<91,63,93>>>>,<<8764,<<91,63,93>>>>,<<8765,<<91,63,93>>>>,<<8766,<<91,63,93>>>>
  ,<<8767,<<91,63,93>>>>,<<8768,<<91,63,93>>>>,<<8769,<<91,63,93>>>>,<<8770,<<91,63,93>>>>
  ,<<8771,<<91,63,93>>>>,<<8772,<<91,63,93>>>>,<<8773,<<91,63,93>>>>,<<8774,<<91,63,93>>>>
  ,<<8775,<<91,63,93>>>>,<<8776,<<91,63,93>>>>,<<8777,<<91,63,93>>>>,<<8778,<<91,63,93>>>>
  ,<<8779,<<91,63,93>>>>,<<8780,<<91,63,93>>>>,<<8781,<<91,63,93>>>>,<<8782,<<91,63,93>>>>
  ,<<8783,<<91,63,93>>>>,<<8784,<<91,63,93>>>>,<<8785,<<91,63,93>>>>,<<8786,<<91,63,93>>>>
  ,<<8787,<<91,63,93>>>>,<<8788,<<91,63,93>>>>,<<8789,<<91,63,93>>>>,<<8790,<<91,63,93>>>>
  ,<<8791,<<91,63,93>>>>,<<8792,<<91,63,93>>>>,<<8793,<<91,63,93>>>>,<<8794,<<91,63,93>>>>
  ,<<8795,<<91,63,93>>>>,<<8796,<<91,63,93>>>>,<<8797,<<91,63,93>>>>,<<8798,<<91,63,93>>>>
  ,<<8799,<<91,63,93>>>>,<<8800,<<91,63,93>>>>,<<8801,<<91,63,93>>>>,<<8802,<<91,63,93>>>>
  ,<<8803,<<91,63,93>>>>,<<8804,<<91,63,93>>>>,<<8805,<<91,63,93>>>>,<<8806,<<91,63,93>>>>
  ,<<8807,<<91,63,93>>>>,<<8808,<<91,63,93>>>>,<<8809,<<91,63,93>>>>,<<8810,<<91,63,93>>>>
  ,<<8811,<<91,63,93>>>>,<<8812,<<91,63,93>>>>,<<8813,<<91,63,93>>>>,<<8814,<<91,63,93>>>>
  ,<<8815,<<91,63,93>>>>,<<8816,<<91,63,93>>>>,<<8817,<<91,63,93>>>>,<<8818,<<91,63,93>>>>
  ,<<8819,<<91,63,93>>>>,<<8820,<<91,63,93>>>>,<<8821,<<91,63,93>>>>,<<8822,<<91,63,93>>>>
  ,<<8823,<<91,63,93>>>>,<<8824,<<91,63,93>>>>,<<8825,<<91,63,93>>>>,<<8826,<<91,63,93>>>>
  ,<<8827,<<91,63,93>>>>,<<8828,<<91,63,93>>>>,<<8829,<<91,63,93>>>>,<<8830,<<91,63,93>>>>
  ,<<8831,<<91,63,93>>>>,<<8832,<<91,63,93>>>>,<<8833,<<91,63,93>>>>,<<8834,<<91,63,93>>>>
  ,<<8835,<<91,63,93>>>>,<<8836,<<91,63,93>>>>,<<8837,<<91,63,93>>>>,<<8838,<<91,63,93>>>>
  ,<<8839,<<91,63,93>>>>,<<8840,<<91,63,93>>>>,<<8841,<<91,63,93>>>>,<<8842,<<91,63,93>>>>
  ,<<8843,<<91,63,93>>>>,<<8844,<<91,63,93>>>>,<<8845,<<91,63,93>>>>,<<8846,<<91,63,93>>>>
  ,<<8847,<<91,63,93>>>>,<<8848,<<91,63,93>>>>,<<8849,<<91,63,93>>>>,<<8850,<<91,63,93>>>>
  ,<<8851,<<91,63,93>>>>,<<8852,<<91,63,93>>>>,<<8853,<<91,63,93>>>>,<<8854,<<91,63,93>>>>
  ,<<8855,<<91,63,93>>>>,<<8856,<<91,63,93>>>>,<<8857,<<91,63,93>>>>,<<8858,<<91,63,93>>>>
  ,<<8859,<<91,63,93>>>>,<<8860,<<91,63,93>>>>,<<8861,<<91,63,93>>>>,<<8862,<<91,63,93>>>>
  ,<<8863,<<91,63,93>>>>,<<8864,<<91,63,93>>>>,<<8865,<<91,63,93>>>>,<<8866,<<91,63,93>>>>
  ,<<8867,<<91,63,93>>>>,<<8868,<<91,63,93>>>>,<<8869,<<91,63,93>>>>,<<8870,<<91,63,93>>>>
  ,<<8871,<<91,63,93>>>>,<<8872,<<91,63,93>>>>,<<8873,<<91,63,93>>>>,<<8874,<<91,63,93>>>>
  ,<<8875,<<91,63,93>>>>,<<8876,<<91,63,93>>>>,<<8877,<<91,63,93>>>>,<<8878,<<91,63,93>>>>
  ,<<8879,<<91,63,93>>>>,<<8880,<<91,63,93>>>>,<<8881,<<91,63,93>>>>,<<8882,<<91,63,93>>>>
  ,<<8883,<<91,63,93>>>>,<<8884,<<91,63,93>>>>,<<8885,<<91,63,93>>>>,<<8886,<<91,63,93>>>>
  ,<<8887,<<91,63,93>>>>,<<8888,<<91,63,93>>>>,<<8889,<<91,63,93>>>>,<<8890,<<91,63,93>>>>
  ,<<8891,<<91,63,93>>>>,<<8892,<<91,63,93>>>>,<<8893,<<91,63,93>>>>,<<8894,<<91,63,93>>>>
  ,<<8895,<<91,63,93>>>>,<<8896,<<91,63,93>>>>,<<8897,<<91,63,93>>>>,<<8898,<<91,63,93>>>>
  ,<<8899,<<91,63,93>>>>,<<8900,<<91,63,93>>>>,<<8901,<<91,63,93>>>>,<<8902,<<91,63,93>>>>
  ,<<8903,<<91,63,93>>>>,<<8904,<<91,63,93>>>>,<<8905,<<91,63,93>>>>,<<8906,<<91,63,93>>>>
  ,<<8907,<<91,63,93>>>>,<<8908,<<91,63,93>>>>,<<8909,<<91,63,93>>>>,<<8910,<<91,63,93>>>>
  ,<<8911,<<91,63,93>>>>,<<8912,<<91,63,93>>>>,<<8913,<<91,63,93>>>>,<<8914,<<91,63,93>>>>
  ,<<8915,<<91,63,93>>>>,<<8916,<<91,63,93>>>>,<<8917,<<91,63,93>>>>,<<8918,<<91,63,93>>>>
  ,<<8919,<<91,63,93>>>>,<<8920,<<91,63,93>>>>,<<8921,<<91,63,93>>>>,<<8922,<<91,63,93>>>>
  ,<<8923,<<91,63,93>>>>,<<8924,<<91,63,93>>>>,<<8925,<<91,63,93>>>>,<<8926,<<91,63,93>>>>
  ,<<8927,<<91,63,93>>>>,<<8928,<<91,63,93>>>>,<<8929,<<91,63,93>>>>,<<8930,<<91,63,93>>>>
  ,<<8931,<<91,63,93>>>>,<<8932,<<91,63,93>>>>,<<8933,<<91,63,93>>>>,<<8934,<<91,63,93>>>>
  ,<<8935,<<91,63,93>>>>,<<8936,<<91,63,93>>>>,<<8937,<<91,63,93>>>>,<<8938,<<91,63,93>>>>
  ,<<8939,<<91,63,93>>>>,<<8940,<<91,63,93>>>>,<<8941,<<91,63,93>>>>,<<8942,<<91,63,93>>>>
  ,<<8943,<<91,63,93>>>>,<<8944,<<91,63,93>>>>,<<8945,<<91,63,93>>>>,<<8946,<<91,63,93>>>>
  ,<<8947,<<91,63,93>>>>,<<8948,<<91,63,93>>>>,<<8949,<<91,63,93>>>>,<<8950,<<91,63,93>>>>
  ,<<8951,<<91,63,93>>>>,<<8952,<<91,63,93>>>>,<<8953,<<91,63,93>>>>,<<8954,<<91,63,93>>>>
  ,<<8955,<<91,63,93>>>>,<<8956,<<91,63,93>>>>,<<8957,<<91,63,93>>>>,<<8958,<<91,63,93>>>>
  ,<<8959,<<91,63,93>>>>,<<9632,<<91,63,93>>>>,<<9633,<<91,63,93>>>>,<<9634,<<91,63,93>>>>
  ,<<9635,<<91,63,93>>>>,<<9636,<<91,63,93>>>>,<<9637,<<91,63,93>>>>,<<9638,<<91,63,93>>>>
  ,<<9639,<<91,63,93>>>>,<<9640,<<91,63,93>>>>,<<9641,<<91,63,93>>>>,<<9642,<<91,63,93>>>>
  ,<<9643,<<91,63,93>>>>,<<9644,<<91,63,93>>>>,<<9645,<<91,63,93>>>>,<<9646,<<91,63,93>>>>
  ,<<9647,<<91,63,93>>>>,<<9648,<<91,63,93>>>>,<<9649,<<91,63,93>>>>,<<9650,<<91,63,93>>>>
  ,<<9651,<<91,63,93>>>>,<<9652,<<91,63,93>>>>,<<9653,<<91,63,93>>>>,<<9654,<<91,63,93>>>>
  ,<<9655,<<91,63,93>>>>,<<9656,<<91,63,93>>>>,<<9657,<<91,63,93>>>>,<<9658,<<91,63,93>>>>
  ,<<9659,<<91,63,93>>>>,<<9660,<<91,63,93>>>>,<<9661,<<91,63,93>>>>,<<9662,<<91,63,93>>>>
  ,<<9663,<<91,63,93>>>>,<<9664,<<91,63,93>>>>,<<9665,<<91,63,93>>>>,<<9666,<<91,63,93>>>>
  ,<<9667,<<91,63,93>>>>,<<9668,<<91,63,93>>>>,<<9669,<<91,63,93>>>>,<<9670,<<91,63,93>>>>
  ,<<9671,<<91,63,93>>>>,<<9672,<<91,63,93>>>>,<<9673,<<91,63,93>>>>,<<9674,<<91,63,93>>>>
  ,<<9675,<<91,63,93>>>>,<<9676,<<91,63,93>>>>,<<9677,<<91,63,93>>>>,<<9678,<<91,63,93>>>>
  ,<<9679,<<91,63,93>>>>,<<9680,<<91,63,93>>>>,<<9681,<<91,63,93>>>>,<<9682,<<91,63,93>>>>
  ,<<9683,<<91,63,93>>>>,<<9684,<<91,63,93>>>>,<<9685,<<91,63,93>>>>,<<9686,<<91,63,93>>>>
  ,<<9687,<<91,63,93>>>>,<<9688,<<91,63,93>>>>,<<9689,<<91,63,93>>>>,<<9690,<<91,63,93>>>>
  ,<<9691,<<91,63,93>>>>,<<9692,<<91,63,93>>>>,<<9693,<<91,63,93>>>>,<<9694,<<91,63,93>>>>
  ,<<9695,<<91,63,93>>>>,<<9696,<<91,63,93>>>>,<<9697,<<91,63,93>>>>,<<9698,<<91,63,93>>>>
  ,<<9699,<<91,63,93>>>>,<<9700,<<91,63,93>>>>,<<9701,<<91,63,93>>>>,<<9702,<<91,63,93>>>>
  ,<<9703,<<91,63,93>>>>,<<9704,<<91,63,93>>>>,<<9705,<<91,63,93>>>>,<<9706,<<91,63,93>>>>
  ,<<9707,<<91,63,93>>>>,<<9708,<<91,63,93>>>>,<<9709,<<91,63,93>>>>,<<9710,<<91,63,93>>>>
  ,<<9711,<<91,63,93>>>>,<<9712,<<91,63,93>>>>,<<9713,<<91,63,93>>>>,<<9714,<<91,63,93>>>>
  ,<<9715,<<91,63,93>>>>,<<9716,<<91,63,93>>>>,<<9717,<<91,63,93>>>>,<<9718,<<91,63,93>>>>
  ,<<9719,<<91,63,93>>>>,<<9720,<<91,63,93>>>>,<<9721,<<91,63,93>>>>,<<9722,<<91,63,93>>>>
  ,<<9723,<<91,63,93>>>>,<<9724,<<91,63,93>>>>,<<9725,<<91,63,93>>>>,<<9726,<<91,63,93>>>>
  ,<<9727,<<91,63,93>>>>
 >>
TranslitFn == [c \in {TranslitPairs[i][1] : i \in 1..Len(TranslitPairs)} |->
   TranslitPairs[CHOOSE i \in 1..Len(TranslitPairs) : TranslitPairs[i][1] = c][2]]
=============================================================================
