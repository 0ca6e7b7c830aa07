// from the Unicode character database 15.0
static const unsigned t_space[][2]={{9,13},{32,32},{133,133},{160,160},{5760,5760},{8192,8202},{8232,8233},{8239,8239},{8287,8287},{12288,12288}};
static const unsigned t_digit[][2]={{48,57},{1632,1641},{1776,1785},{1984,1993},{2406,2415},{2534,2543},{2662,2671},{2790,2799},{2918,2927},{3046,3055},{3174,3183},{3302,3311},{3430,3439},{3664,3673},{3792,3801},{3872,3881},{4160,4169},{4240,4249},{6112,6121},{6160,6169},{6470,6479},{6608,6617},{6784,6793},{6800,6809},{6992,7001},{7088,7097},{7232,7241},{7248,7257},{42528,42537},{43216,43225},{43264,43273},{43472,43481},{43504,43513},{43600,43609},{44016,44025},{65296,65305}};
static const unsigned t_upper[][2]={{65,90},{304,304},{913,929},{931,937},{1040,1071},{7838,7838},{7944,7951},{7960,7965},{7976,7983},{7992,7999},{8008,8013},{8040,8047},{8120,8123},{8136,8139},{8152,8155},{8168,8172},{8490,8491}};
static const unsigned t_lower[][2]={{97,122},{223,223},{305,305},{329,329},{945,961},{963,969},{1072,1103},{7936,7943},{7952,7957},{7968,7975},{7984,7991},{8000,8005},{8032,8039},{8048,8061}};
static const unsigned t_toupper[][2]={{97,65},{98,66},{99,67},{100,68},{101,69},{102,70},{103,71},{104,72},{105,73},{106,74},{107,75},{108,76},{109,77},{110,78},{111,79},{112,80},{113,81},{114,82},{115,83},{116,84},{117,85},{118,86},{119,87},{120,88},{121,89},{122,90},{223,7838},{257,256},{259,258},{261,260},{263,262},{265,264},{267,266},{269,268},{271,270},{273,272},{275,274},{277,276},{279,278},{281,280},{283,282},{285,284},{287,286},{289,288},{291,290},{293,292},{295,294},{297,296},{299,298},{301,300},{303,302},{305,73},{307,306},{309,308},{311,310},{314,313},{316,315},{318,317},{320,319},{322,321},{324,323},{326,325},{328,327},{329,700},{331,330},{333,332},{335,334},{337,336},{339,338},{341,340},{343,342},{345,344},{347,346},{349,348},{351,350},{353,352},{355,354},{357,356},{359,358},{361,360},{363,362},{365,364},{367,366},{369,368},{371,370},{373,372},{375,374},{945,913},{946,914},{947,915},{948,916},{949,917},{950,918},{951,919},{952,920},{953,921},{954,922},{955,923},{956,924},{957,925},{958,926},{959,927},{960,928},{961,929},{963,931},{964,932},{965,933},{966,934},{967,935},{968,936},{969,937},{1072,1040},{1073,1041},{1074,1042},{1075,1043},{1076,1044},{1077,1045},{1078,1046},{1079,1047},{1080,1048},{1081,1049},{1082,1050},{1083,1051},{1084,1052},{1085,1053},{1086,1054},{1087,1055},{1088,1056},{1089,1057},{1090,1058},{1091,1059},{1092,1060},{1093,1061},{1094,1062},{1095,1063},{1096,1064},{1097,1065},{1098,1066},{1099,1067},{1100,1068},{1101,1069},{1102,1070},{1103,1071},{7936,7944},{7937,7945},{7938,7946},{7939,7947},{7940,7948},{7941,7949},{7942,7950},{7943,7951},{7952,7960},{7953,7961},{7954,7962},{7955,7963},{7956,7964},{7957,7965},{7968,7976},{7969,7977},{7970,7978},{7971,7979},{7972,7980},{7973,7981},{7974,7982},{7975,7983},{7984,7992},{7985,7993},{7986,7994},{7987,7995},{7988,7996},{7989,7997},{7990,7998},{7991,7999},{8000,8008},{8001,8009},{8002,8010},{8003,8011},{8004,8012},{8005,8013},{8032,8040},{8033,8041},{8034,8042},{8035,8043},{8036,8044},{8037,8045},{8038,8046},{8039,8047},{8048,8122},{8049,8123},{8050,8136},{8051,8137},{8052,8138},{8053,8139},{8054,8154},{8055,8155},{8056,8184},{8057,8185},{8058,8170},{8059,8171},{8060,8186},{8061,8187}};
static const unsigned t_tolower[][2]={{65,97},{66,98},{67,99},{68,100},{69,101},{70,102},{71,103},{72,104},{73,105},{74,106},{75,107},{76,108},{77,109},{78,110},{79,111},{80,112},{81,113},{82,114},{83,115},{84,116},{85,117},{86,118},{87,119},{88,120},{89,121},{90,122},{256,257},{258,259},{260,261},{262,263},{264,265},{266,267},{268,269},{270,271},{272,273},{274,275},{276,277},{278,279},{280,281},{282,283},{284,285},{286,287},{288,289},{290,291},{292,293},{294,295},{296,297},{298,299},{300,301},{302,303},{304,105},{306,307},{308,309},{310,311},{313,314},{315,316},{317,318},{319,320},{321,322},{323,324},{325,326},{327,328},{330,331},{332,333},{334,335},{336,337},{338,339},{340,341},{342,343},{344,345},{346,347},{348,349},{350,351},{352,353},{354,355},{356,357},{358,359},{360,361},{362,363},{364,365},{366,367},{368,369},{370,371},{372,373},{374,375},{913,945},{914,946},{915,947},{916,948},{917,949},{918,950},{919,951},{920,952},{921,953},{922,954},{923,955},{924,956},{925,957},{926,958},{927,959},{928,960},{929,961},{931,963},{932,964},{933,965},{934,966},{935,967},{936,968},{937,969},{1040,1072},{1041,1073},{1042,1074},{1043,1075},{1044,1076},{1045,1077},{1046,1078},{1047,1079},{1048,1080},{1049,1081},{1050,1082},{1051,1083},{1052,1084},{1053,1085},{1054,1086},{1055,1087},{1056,1088},{1057,1089},{1058,1090},{1059,1091},{1060,1092},{1061,1093},{1062,1094},{1063,1095},{1064,1096},{1065,1097},{1066,1098},{1067,1099},{1068,1100},{1069,1101},{1070,1102},{1071,1103},{7838,223},{7944,7936},{7945,7937},{7946,7938},{7947,7939},{7948,7940},{7949,7941},{7950,7942},{7951,7943},{7960,7952},{7961,7953},{7962,7954},{7963,7955},{7964,7956},{7965,7957},{7976,7968},{7977,7969},{7978,7970},{7979,7971},{7980,7972},{7981,7973},{7982,7974},{7983,7975},{7992,7984},{7993,7985},{7994,7986},{7995,7987},{7996,7988},{7997,7989},{7998,7990},{7999,7991},{8008,8000},{8009,8001},{8010,8002},{8011,8003},{8012,8004},{8013,8005},{8040,8032},{8041,8033},{8042,8034},{8043,8035},{8044,8036},{8045,8037},{8046,8038},{8047,8039},{8120,8112},{8121,8113},{8122,8048},{8123,8049},{8136,8050},{8137,8051},{8138,8052},{8139,8053},{8152,8144},{8153,8145},{8154,8054},{8155,8055},{8168,8160},{8169,8161},{8170,8058},{8171,8059},{8172,8165},{8490,107},{8491,229}};
