----------------------------- MODULE NameTables ------------------------------
(***************************************************************************)
(* Fixed tables: the standard Macintosh glyph names (as byte strings), the *)
(* Macintosh and Windows language ids, and the OpenType script and         *)
(* language tags.                                                          *)
(***************************************************************************)
MacNames == <<
  <<46,110,111,116,100,101,102>>, <<46,110,117,108,108>>,
  <<110,111,110,109,97,114,107,105,110,103,114,101,116,117,114,110>>, <<115,112,97,99,101>>,
  <<101,120,99,108,97,109>>, <<113,117,111,116,101,100,98,108>>,
  <<110,117,109,98,101,114,115,105,103,110>>, <<100,111,108,108,97,114>>,
  <<112,101,114,99,101,110,116>>, <<97,109,112,101,114,115,97,110,100>>,
  <<113,117,111,116,101,115,105,110,103,108,101>>, <<112,97,114,101,110,108,101,102,116>>,
  <<112,97,114,101,110,114,105,103,104,116>>, <<97,115,116,101,114,105,115,107>>,
  <<112,108,117,115>>, <<99,111,109,109,97>>, <<104,121,112,104,101,110>>,
  <<112,101,114,105,111,100>>, <<115,108,97,115,104>>, <<122,101,114,111>>, <<111,110,101>>,
  <<116,119,111>>, <<116,104,114,101,101>>, <<102,111,117,114>>, <<102,105,118,101>>,
  <<115,105,120>>, <<115,101,118,101,110>>, <<101,105,103,104,116>>, <<110,105,110,101>>,
  <<99,111,108,111,110>>, <<115,101,109,105,99,111,108,111,110>>, <<108,101,115,115>>,
  <<101,113,117,97,108>>, <<103,114,101,97,116,101,114>>, <<113,117,101,115,116,105,111,110>>,
  <<97,116>>, <<65>>, <<66>>, <<67>>, <<68>>, <<69>>, <<70>>, <<71>>, <<72>>, <<73>>, <<74>>,
  <<75>>, <<76>>, <<77>>, <<78>>, <<79>>, <<80>>, <<81>>, <<82>>, <<83>>, <<84>>, <<85>>, <<86>>,
  <<87>>, <<88>>, <<89>>, <<90>>, <<98,114,97,99,107,101,116,108,101,102,116>>,
  <<98,97,99,107,115,108,97,115,104>>, <<98,114,97,99,107,101,116,114,105,103,104,116>>,
  <<97,115,99,105,105,99,105,114,99,117,109>>, <<117,110,100,101,114,115,99,111,114,101>>,
  <<103,114,97,118,101>>, <<97>>, <<98>>, <<99>>, <<100>>, <<101>>, <<102>>, <<103>>, <<104>>,
  <<105>>, <<106>>, <<107>>, <<108>>, <<109>>, <<110>>, <<111>>, <<112>>, <<113>>, <<114>>,
  <<115>>, <<116>>, <<117>>, <<118>>, <<119>>, <<120>>, <<121>>, <<122>>,
  <<98,114,97,99,101,108,101,102,116>>, <<98,97,114>>, <<98,114,97,99,101,114,105,103,104,116>>,
  <<97,115,99,105,105,116,105,108,100,101>>, <<65,100,105,101,114,101,115,105,115>>,
  <<65,114,105,110,103>>, <<67,99,101,100,105,108,108,97>>, <<69,97,99,117,116,101>>,
  <<78,116,105,108,100,101>>, <<79,100,105,101,114,101,115,105,115>>,
  <<85,100,105,101,114,101,115,105,115>>, <<97,97,99,117,116,101>>, <<97,103,114,97,118,101>>,
  <<97,99,105,114,99,117,109,102,108,101,120>>, <<97,100,105,101,114,101,115,105,115>>,
  <<97,116,105,108,100,101>>, <<97,114,105,110,103>>, <<99,99,101,100,105,108,108,97>>,
  <<101,97,99,117,116,101>>, <<101,103,114,97,118,101>>,
  <<101,99,105,114,99,117,109,102,108,101,120>>, <<101,100,105,101,114,101,115,105,115>>,
  <<105,97,99,117,116,101>>, <<105,103,114,97,118,101>>,
  <<105,99,105,114,99,117,109,102,108,101,120>>, <<105,100,105,101,114,101,115,105,115>>,
  <<110,116,105,108,100,101>>, <<111,97,99,117,116,101>>, <<111,103,114,97,118,101>>,
  <<111,99,105,114,99,117,109,102,108,101,120>>, <<111,100,105,101,114,101,115,105,115>>,
  <<111,116,105,108,100,101>>, <<117,97,99,117,116,101>>, <<117,103,114,97,118,101>>,
  <<117,99,105,114,99,117,109,102,108,101,120>>, <<117,100,105,101,114,101,115,105,115>>,
  <<100,97,103,103,101,114>>, <<100,101,103,114,101,101>>, <<99,101,110,116>>,
  <<115,116,101,114,108,105,110,103>>, <<115,101,99,116,105,111,110>>, <<98,117,108,108,101,116>>,
  <<112,97,114,97,103,114,97,112,104>>, <<103,101,114,109,97,110,100,98,108,115>>,
  <<114,101,103,105,115,116,101,114,101,100>>, <<99,111,112,121,114,105,103,104,116>>,
  <<116,114,97,100,101,109,97,114,107>>, <<97,99,117,116,101>>,
  <<100,105,101,114,101,115,105,115>>, <<110,111,116,101,113,117,97,108>>, <<65,69>>,
  <<79,115,108,97,115,104>>, <<105,110,102,105,110,105,116,121>>,
  <<112,108,117,115,109,105,110,117,115>>, <<108,101,115,115,101,113,117,97,108>>,
  <<103,114,101,97,116,101,114,101,113,117,97,108>>, <<121,101,110>>, <<109,117>>,
  <<112,97,114,116,105,97,108,100,105,102,102>>, <<115,117,109,109,97,116,105,111,110>>,
  <<112,114,111,100,117,99,116>>, <<112,105>>, <<105,110,116,101,103,114,97,108>>,
  <<111,114,100,102,101,109,105,110,105,110,101>>,
  <<111,114,100,109,97,115,99,117,108,105,110,101>>, <<79,109,101,103,97>>, <<97,101>>,
  <<111,115,108,97,115,104>>, <<113,117,101,115,116,105,111,110,100,111,119,110>>,
  <<101,120,99,108,97,109,100,111,119,110>>, <<108,111,103,105,99,97,108,110,111,116>>,
  <<114,97,100,105,99,97,108>>, <<102,108,111,114,105,110>>,
  <<97,112,112,114,111,120,101,113,117,97,108>>, <<68,101,108,116,97>>,
  <<103,117,105,108,108,101,109,111,116,108,101,102,116>>,
  <<103,117,105,108,108,101,109,111,116,114,105,103,104,116>>, <<101,108,108,105,112,115,105,115>>,
  <<110,111,110,98,114,101,97,107,105,110,103,115,112,97,99,101>>, <<65,103,114,97,118,101>>,
  <<65,116,105,108,100,101>>, <<79,116,105,108,100,101>>, <<79,69>>, <<111,101>>,
  <<101,110,100,97,115,104>>, <<101,109,100,97,115,104>>,
  <<113,117,111,116,101,100,98,108,108,101,102,116>>,
  <<113,117,111,116,101,100,98,108,114,105,103,104,116>>, <<113,117,111,116,101,108,101,102,116>>,
  <<113,117,111,116,101,114,105,103,104,116>>, <<100,105,118,105,100,101>>,
  <<108,111,122,101,110,103,101>>, <<121,100,105,101,114,101,115,105,115>>,
  <<89,100,105,101,114,101,115,105,115>>, <<102,114,97,99,116,105,111,110>>,
  <<99,117,114,114,101,110,99,121>>, <<103,117,105,108,115,105,110,103,108,108,101,102,116>>,
  <<103,117,105,108,115,105,110,103,108,114,105,103,104,116>>, <<102,105>>, <<102,108>>,
  <<100,97,103,103,101,114,100,98,108>>,
  <<112,101,114,105,111,100,99,101,110,116,101,114,101,100>>,
  <<113,117,111,116,101,115,105,110,103,108,98,97,115,101>>,
  <<113,117,111,116,101,100,98,108,98,97,115,101>>, <<112,101,114,116,104,111,117,115,97,110,100>>,
  <<65,99,105,114,99,117,109,102,108,101,120>>, <<69,99,105,114,99,117,109,102,108,101,120>>,
  <<65,97,99,117,116,101>>, <<69,100,105,101,114,101,115,105,115>>, <<69,103,114,97,118,101>>,
  <<73,97,99,117,116,101>>, <<73,99,105,114,99,117,109,102,108,101,120>>,
  <<73,100,105,101,114,101,115,105,115>>, <<73,103,114,97,118,101>>, <<79,97,99,117,116,101>>,
  <<79,99,105,114,99,117,109,102,108,101,120>>, <<97,112,112,108,101>>, <<79,103,114,97,118,101>>,
  <<85,97,99,117,116,101>>, <<85,99,105,114,99,117,109,102,108,101,120>>,
  <<85,103,114,97,118,101>>, <<100,111,116,108,101,115,115,105>>,
  <<99,105,114,99,117,109,102,108,101,120>>, <<116,105,108,100,101>>, <<109,97,99,114,111,110>>,
  <<98,114,101,118,101>>, <<100,111,116,97,99,99,101,110,116>>, <<114,105,110,103>>,
  <<99,101,100,105,108,108,97>>, <<104,117,110,103,97,114,117,109,108,97,117,116>>,
  <<111,103,111,110,101,107>>, <<99,97,114,111,110>>, <<76,115,108,97,115,104>>,
  <<108,115,108,97,115,104>>, <<83,99,97,114,111,110>>, <<115,99,97,114,111,110>>,
  <<90,99,97,114,111,110>>, <<122,99,97,114,111,110>>, <<98,114,111,107,101,110,98,97,114>>,
  <<69,116,104>>, <<101,116,104>>, <<89,97,99,117,116,101>>, <<121,97,99,117,116,101>>,
  <<84,104,111,114,110>>, <<116,104,111,114,110>>, <<109,105,110,117,115>>,
  <<109,117,108,116,105,112,108,121>>, <<111,110,101,115,117,112,101,114,105,111,114>>,
  <<116,119,111,115,117,112,101,114,105,111,114>>,
  <<116,104,114,101,101,115,117,112,101,114,105,111,114>>, <<111,110,101,104,97,108,102>>,
  <<111,110,101,113,117,97,114,116,101,114>>,
  <<116,104,114,101,101,113,117,97,114,116,101,114,115>>, <<102,114,97,110,99>>,
  <<71,98,114,101,118,101>>, <<103,98,114,101,118,101>>, <<73,100,111,116,97,99,99,101,110,116>>,
  <<83,99,101,100,105,108,108,97>>, <<115,99,101,100,105,108,108,97>>, <<67,97,99,117,116,101>>,
  <<99,97,99,117,116,101>>, <<67,99,97,114,111,110>>, <<99,99,97,114,111,110>>,
  <<100,99,114,111,97,116>>>>

MacLangs == <<
  <<0,"en">>, <<1,"fr">>, <<2,"de">>, <<3,"it">>, <<4,"nl">>, <<5,"sv">>, <<6,"es">>, <<7,"da">>,
  <<8,"pt">>, <<9,"nb">>, <<10,"he">>, <<11,"ja">>, <<12,"ar">>, <<13,"fi">>, <<14,"el">>,
  <<15,"is">>, <<16,"mt">>, <<17,"tr">>, <<18,"hr">>, <<19,"zh-Hant">>, <<20,"ur">>, <<21,"hi">>,
  <<22,"th">>, <<23,"ko">>, <<24,"lt">>, <<25,"pl">>, <<26,"hu">>, <<27,"et">>, <<28,"lv">>,
  <<29,"se">>, <<30,"fo">>, <<31,"fa">>, <<32,"ru">>, <<33,"zh-Hans">>, <<34,"nl-BE">>,
  <<35,"ga">>, <<36,"sq">>, <<37,"ro">>, <<38,"cs">>, <<39,"sk">>, <<40,"sl">>, <<41,"yi">>,
  <<42,"sr">>, <<43,"mk">>, <<44,"bg">>, <<45,"uk">>, <<46,"be">>, <<47,"uz">>, <<48,"kk">>,
  <<49,"az-Cyrl">>, <<50,"az-Arab">>, <<51,"hy">>, <<52,"ka">>, <<53,"mo">>, <<54,"ky">>,
  <<55,"tg">>, <<56,"tk-Cyrl">>, <<57,"mn-Mong">>, <<58,"mn">>, <<59,"ps">>, <<60,"ku">>,
  <<61,"ks">>, <<62,"sd">>, <<63,"bo">>, <<64,"ne">>, <<65,"sa">>, <<66,"mr">>, <<67,"bn">>,
  <<68,"as">>, <<69,"gu">>, <<70,"pa">>, <<71,"or">>, <<72,"ml">>, <<73,"kn">>, <<74,"ta">>,
  <<75,"te">>, <<76,"si">>, <<77,"my">>, <<78,"km">>, <<79,"lo">>, <<80,"vi">>, <<81,"id">>,
  <<82,"fil">>, <<83,"ms">>, <<84,"ms-Arab">>, <<85,"am">>, <<86,"ti">>, <<87,"om">>, <<88,"so">>,
  <<89,"sw">>, <<90,"rw">>, <<91,"rn">>, <<92,"ny">>, <<93,"mg">>, <<94,"eo">>, <<128,"cy">>,
  <<129,"eu">>, <<130,"ca">>, <<131,"la">>, <<132,"qu">>, <<133,"gn">>, <<134,"ay">>,
  <<135,"tt-Cyrl">>, <<136,"ug">>, <<137,"dz">>, <<138,"jv">>, <<139,"su">>, <<140,"gl">>,
  <<141,"af">>, <<142,"br">>, <<143,"iu">>, <<144,"gd">>, <<145,"gv">>, <<146,"ga-Latg">>,
  <<147,"to">>, <<148,"grc">>, <<149,"kl">>, <<150,"az">>>>

WinLangs == <<
  <<1025,"ar-SA">>, <<1026,"bg-BG">>, <<1027,"ca-ES">>, <<1028,"zh-TW">>, <<1029,"cs-CZ">>,
  <<1030,"da-DK">>, <<1031,"de-DE">>, <<1032,"el-GR">>, <<1033,"en-US">>,
  <<1034,"es-ES-u-co-trad">>, <<1035,"fi-FI">>, <<1036,"fr-FR">>, <<1037,"he-IL">>,
  <<1038,"hu-HU">>, <<1039,"is-IS">>, <<1040,"it-IT">>, <<1041,"ja-JP">>, <<1042,"ko-KR">>,
  <<1043,"nl-NL">>, <<1044,"nb-NO">>, <<1045,"pl-PL">>, <<1046,"pt-BR">>, <<1047,"rm-CH">>,
  <<1048,"ro-RO">>, <<1049,"ru-RU">>, <<1050,"hr-HR">>, <<1051,"sk-SK">>, <<1052,"sq-AL">>,
  <<1053,"sv-SE">>, <<1054,"th-TH">>, <<1055,"tr-TR">>, <<1056,"ur-PK">>, <<1057,"id-ID">>,
  <<1058,"uk-UA">>, <<1059,"be-BY">>, <<1060,"sl-SI">>, <<1061,"et-EE">>, <<1062,"lv-LV">>,
  <<1063,"lt-LT">>, <<1064,"tg-Cyrl-TJ">>, <<1066,"vi-VN">>, <<1067,"hy-AM">>,
  <<1068,"az-Latn-AZ">>, <<1069,"eu-ES">>, <<1070,"hsb-DE">>, <<1071,"mk-MK">>, <<1074,"tn-ZA">>,
  <<1076,"xh-ZA">>, <<1077,"zu-ZA">>, <<1078,"af-ZA">>, <<1079,"ka-GE">>, <<1080,"fo-FO">>,
  <<1081,"hi-IN">>, <<1082,"mt-MT">>, <<1083,"se-NO">>, <<1086,"ms-MY">>, <<1087,"kk-KZ">>,
  <<1088,"ky-KG">>, <<1089,"sw-KE">>, <<1090,"tk-TM">>, <<1091,"uz-Latn-UZ">>, <<1092,"tt-RU">>,
  <<1093,"bn-IN">>, <<1094,"pa-IN">>, <<1095,"gu-IN">>, <<1096,"or-IN">>, <<1097,"ta-IN">>,
  <<1098,"te-IN">>, <<1099,"kn-IN">>, <<1100,"ml-IN">>, <<1101,"as-IN">>, <<1102,"mr-IN">>,
  <<1103,"sa-IN">>, <<1104,"mn-Cyrl-MN">>, <<1105,"bo-CN">>, <<1106,"cy-GB">>, <<1107,"km-KH">>,
  <<1108,"lo-LA">>, <<1110,"gl-ES">>, <<1111,"kok-IN">>, <<1114,"syr-SY">>, <<1115,"si-LK">>,
  <<1117,"iu-Cans-CA">>, <<1118,"am-ET">>, <<1121,"ne-NP">>, <<1122,"fy-NL">>, <<1123,"ps-AF">>,
  <<1124,"fil-PH">>, <<1125,"dv-MV">>, <<1128,"ha-Latn-NG">>, <<1130,"yo-NG">>, <<1131,"quz-BO">>,
  <<1132,"nso-ZA">>, <<1133,"ba-RU">>, <<1134,"lb-LU">>, <<1135,"kl-GL">>, <<1136,"ig-NG">>,
  <<1144,"ii-CN">>, <<1146,"arn-CL">>, <<1148,"moh">>, <<1150,"br-FR">>, <<1152,"ug-Arab-CN">>,
  <<1153,"mi-NZ">>, <<1154,"oc-FR">>, <<1155,"co-FR">>, <<1156,"gsw-FR">>, <<1157,"sah-RU">>,
  <<1158,"quc-GT">>, <<1159,"rw-RW">>, <<1160,"wo-SN">>, <<1164,"fa-AF">>, <<2049,"ar-IQ">>,
  <<2052,"zh-CN">>, <<2055,"de-CH">>, <<2057,"en-GB">>, <<2058,"es-MX">>, <<2060,"fr-BE">>,
  <<2064,"it-CH">>, <<2067,"nl-BE">>, <<2068,"nn-NO">>, <<2070,"pt-PT">>, <<2074,"sr-Latn-CS">>,
  <<2077,"sv-FI">>, <<2092,"az-Cyrl-AZ">>, <<2094,"dsb-DE">>, <<2107,"se-SE">>, <<2108,"ga-IE">>,
  <<2110,"ms-BN">>, <<2115,"uz-Cyrl-UZ">>, <<2117,"bn-BD">>, <<2128,"mn-Mong-CN">>,
  <<2141,"iu-Latn-CA">>, <<2143,"tzm-Latn-DZ">>, <<2155,"quz-EC">>, <<3073,"ar-EG">>,
  <<3076,"zh-HK">>, <<3079,"de-AT">>, <<3081,"en-AU">>, <<3082,"es-ES">>, <<3084,"fr-CA">>,
  <<3098,"sr-Cyrl-CS">>, <<3131,"se-FI">>, <<3179,"quz-PE">>, <<4097,"ar-LY">>, <<4100,"zh-SG">>,
  <<4103,"de-LU">>, <<4105,"en-CA">>, <<4106,"es-GT">>, <<4108,"fr-CH">>, <<4122,"hr-BA">>,
  <<4155,"smj-NO">>, <<5121,"ar-DZ">>, <<5124,"zh-MO">>, <<5127,"de-LI">>, <<5129,"en-NZ">>,
  <<5130,"es-CR">>, <<5132,"fr-LU">>, <<5146,"bs-Latn-BA">>, <<5179,"smj-SE">>, <<6145,"ar-MA">>,
  <<6153,"en-IE">>, <<6154,"es-PA">>, <<6156,"fr-MC">>, <<6170,"sr-Latn-BA">>, <<6203,"sma-NO">>,
  <<7169,"ar-TN">>, <<7177,"en-ZA">>, <<7178,"es-DO">>, <<7194,"sr-Cyrl-BA">>, <<7227,"sma-SE">>,
  <<8193,"ar-OM">>, <<8201,"en-JM">>, <<8202,"es-VE">>, <<8218,"bs-Cyrl-BA">>, <<8251,"sms-FI">>,
  <<9217,"ar-YE">>, <<9225,"en-029">>, <<9226,"es-CO">>, <<9275,"smn-FI">>, <<10241,"ar-SY">>,
  <<10249,"en-BZ">>, <<10250,"es-PE">>, <<11265,"ar-JO">>, <<11273,"en-TT">>, <<11274,"es-AR">>,
  <<12289,"ar-LB">>, <<12297,"en-ZW">>, <<12298,"es-EC">>, <<13313,"ar-KW">>, <<13321,"en-PH">>,
  <<13322,"es-CL">>, <<14337,"ar-AE">>, <<14346,"es-UY">>, <<15361,"ar-BH">>, <<15370,"es-PY">>,
  <<16385,"ar-QA">>, <<16393,"en-IN">>, <<16394,"es-BO">>, <<17417,"en-MY">>, <<17418,"es-SV">>,
  <<18441,"en-SG">>, <<18442,"es-HN">>, <<19466,"es-NI">>, <<20490,"es-PR">>, <<21514,"es-US">>>>

ScriptTags == <<
  "DFLT", "adlm", "aghb", "ahom", "arab", "armi", "armn", "avst", "bali", "bamu", "bass", "batk",
  "beng", "bhks", "bng2", "bopo", "brah", "brai", "bugi", "buhd", "cakm", "cans", "cari", "cham",
  "cher", "chrs", "copt", "cpmn", "cprt", "cyrl", "dev2", "deva", "diak", "dogr", "dsrt", "dupl",
  "egyp", "elba", "elym", "ethi", "geor", "gjr2", "glag", "gong", "gonm", "goth", "gran", "grek",
  "gujr", "gur2", "guru", "hang", "hani", "hano", "hatr", "hebr", "hluw", "hmng", "hmnp", "hung",
  "ital", "jamo", "java", "kali", "kana", "khar", "khmr", "khoj", "kits", "knd2", "knda", "kthi",
  "lana", "lao ", "latn", "lepc", "limb", "lina", "linb", "lisu", "lyci", "lydi", "mahj", "maka",
  "mand", "mani", "marc", "medf", "mend", "merc", "mero", "mlm2", "mlym", "modi", "mong", "mroo",
  "mtei", "mult", "mym2", "mymr", "nand", "narb", "nbat", "newa", "nko ", "nshu", "ogam", "olck",
  "orkh", "ory2", "orya", "osge", "osma", "palm", "pauc", "perm", "phag", "phli", "phlp", "phnx",
  "plrd", "prti", "rjng", "rohg", "runr", "samr", "sarb", "saur", "sgnw", "shaw", "shrd", "sidd",
  "sind", "sinh", "sogd", "sogo", "sora", "soyo", "sund", "sylo", "syrc", "tagb", "takr", "tale",
  "talu", "taml", "tang", "tavt", "tel2", "telu", "tfng", "tglg", "thaa", "thai", "tibt", "tirh",
  "tml2", "toto", "ugar", "vai ", "wara", "wcho", "xpeo", "xsux", "yezi", "yi  ", "zanb">>

LangTags == <<
  "ABA ", "ABK ", "ACH ", "ACR ", "ADY ", "AFK ", "AFR ", "AGW ", "AIO ", "AKA ", "AKB ", "ALS ",
  "ALT ", "AMH ", "ANG ", "ARA ", "ARG ", "ARI ", "ARK ", "ASM ", "AST ", "ATH ", "AVN ", "AVR ",
  "AWA ", "AYM ", "AZB ", "AZE ", "BAD ", "BAD0", "BAG ", "BAL ", "BAN ", "BAR ", "BAU ", "BBC ",
  "BBR ", "BCH ", "BDY ", "BEL ", "BEM ", "BEN ", "BGC ", "BGQ ", "BGR ", "BHI ", "BHO ", "BIK ",
  "BIL ", "BIS ", "BJJ ", "BKF ", "BLI ", "BLK ", "BLN ", "BLT ", "BMB ", "BML ", "BOS ", "BPY ",
  "BRE ", "BRH ", "BRI ", "BRM ", "BRX ", "BSH ", "BSK ", "BTD ", "BTI ", "BTK ", "BTM ", "BTS ",
  "BTX ", "BTZ ", "BUG ", "BYV ", "CAK ", "CAT ", "CBK ", "CEB ", "CGG ", "CHA ", "CHE ", "CHG ",
  "CHH ", "CHI ", "CHK ", "CHK0", "CHO ", "CHP ", "CHR ", "CHU ", "CHY ", "CJA ", "CJM ", "COP ",
  "COR ", "COS ", "CPP ", "CRE ", "CRR ", "CRT ", "CSB ", "CSL ", "CSY ", "CTG ", "CTT ", "CUK ",
  "DAG ", "DAN ", "DAR ", "DAX ", "DCR ", "DEU ", "DGO ", "DGR ", "DHG ", "DHV ", "DIQ ", "DIV ",
  "DJR ", "DJR0", "DNG ", "DNJ ", "DNK ", "DRI ", "DUJ ", "DUN ", "DZN ", "EBI ", "EDO ", "EFI ",
  "ELL ", "EMK ", "ENG ", "ERZ ", "ESP ", "ESU ", "ETI ", "EUQ ", "EVK ", "EVN ", "EWE ", "FAN ",
  "FAN0", "FAR ", "FAT ", "FIN ", "FJI ", "FLE ", "FMP ", "FNE ", "FON ", "FOS ", "FRA ", "FRC ",
  "FRI ", "FRL ", "FRP ", "FTA ", "FUL ", "FUV ", "GAD ", "GAE ", "GAG ", "GAL ", "GAW ", "GEZ ",
  "GIH ", "GIL ", "GIL0", "GKP ", "GLK ", "GMZ ", "GNN ", "GOG ", "GON ", "GRN ", "GRO ", "GUA ",
  "GUC ", "GUF ", "GUJ ", "GUZ ", "HAI ", "HAI0", "HAL ", "HAR ", "HAU ", "HAW ", "HAY ", "HAZ ",
  "HBN ", "HEI ", "HER ", "HIL ", "HIN ", "HMA ", "HMD ", "HMN ", "HMO ", "HMZ ", "HND ", "HO  ",
  "HRI ", "HRV ", "HUN ", "HYE ", "HYE0", "IBA ", "IBB ", "IBO ", "IDO ", "IJO ", "ILE ", "ILO ",
  "INA ", "IND ", "ING ", "INU ", "INUK", "IPK ", "IRI ", "IRT ", "IRU ", "ISL ", "ISM ", "ITA ",
  "IWR ", "JAM ", "JAN ", "JAV ", "JBO ", "JCT ", "JII ", "JUD ", "JUL ", "KAB ", "KAB0", "KAC ",
  "KAL ", "KAN ", "KAR ", "KAT ", "KAW ", "KAZ ", "KDE ", "KEA ", "KEB ", "KEK ", "KGE ", "KHA ",
  "KHK ", "KHM ", "KHS ", "KHT ", "KHV ", "KHW ", "KIK ", "KIR ", "KIU ", "KJD ", "KJP ", "KJZ ",
  "KKN ", "KLM ", "KMB ", "KMN ", "KMO ", "KMS ", "KMZ ", "KNR ", "KOD ", "KOH ", "KOK ", "KOM ",
  "KON ", "KON0", "KOP ", "KOR ", "KOS ", "KOZ ", "KPL ", "KRI ", "KRK ", "KRL ", "KRM ", "KRN ",
  "KRT ", "KSH ", "KSH0", "KSI ", "KSM ", "KSW ", "KUA ", "KUI ", "KUL ", "KUM ", "KUR ", "KUU ",
  "KUY ", "KWK ", "KYK ", "KYU ", "LAD ", "LAH ", "LAK ", "LAM ", "LAO ", "LAT ", "LAZ ", "LCR ",
  "LDK ", "LEF ", "LEZ ", "LIJ ", "LIM ", "LIN ", "LIS ", "LJP ", "LKI ", "LMA ", "LMB ", "LMO ",
  "LMW ", "LOM ", "LPO ", "LRC ", "LSB ", "LSM ", "LTH ", "LTZ ", "LUA ", "LUB ", "LUG ", "LUH ",
  "LUO ", "LVI ", "MAD ", "MAG ", "MAH ", "MAJ ", "MAK ", "MAL ", "MAM ", "MAN ", "MAP ", "MAR ",
  "MAW ", "MBN ", "MBO ", "MCH ", "MCR ", "MDE ", "MDR ", "MEN ", "MER ", "MFA ", "MFE ", "MIN ",
  "MIZ ", "MKD ", "MKR ", "MKW ", "MLE ", "MLG ", "MLN ", "MLR ", "MLY ", "MND ", "MNG ", "MNI ",
  "MNK ", "MNX ", "MOH ", "MOK ", "MOL ", "MON ", "MONT", "MOS ", "MRI ", "MTH ", "MTS ", "MUN ",
  "MUS ", "MWL ", "MWW ", "MYN ", "MZN ", "NAG ", "NAH ", "NAN ", "NAP ", "NAS ", "NAU ", "NAV ",
  "NCR ", "NDC ", "NDG ", "NDS ", "NEP ", "NEW ", "NGA ", "NHC ", "NIS ", "NIU ", "NKL ", "NKO ",
  "NLD ", "NOE ", "NOG ", "NOR ", "NOV ", "NSM ", "NSO ", "NTA ", "NTO ", "NYM ", "NYN ", "NZA ",
  "OCI ", "OCR ", "OJB ", "ORI ", "ORO ", "OSS ", "PAA ", "PAG ", "PAL ", "PAM ", "PAN ", "PAP ",
  "PAP0", "PAS ", "PAU ", "PCC ", "PCD ", "PDC ", "PGR ", "PHK ", "PIH ", "PIL ", "PLK ", "PMS ",
  "PNB ", "POH ", "PON ", "PRO ", "PTG ", "PWO ", "QUC ", "QUH ", "QUZ ", "QVI ", "QWH ", "RAJ ",
  "RAR ", "RBU ", "RCR ", "REJ ", "RHG ", "RIA ", "RIF ", "RIT ", "RKW ", "RMS ", "RMY ", "ROM ",
  "ROY ", "RSY ", "RTM ", "RUA ", "RUN ", "RUP ", "RUS ", "SAD ", "SAN ", "SAS ", "SAT ", "SAY ",
  "SCN ", "SCO ", "SCS ", "SEK ", "SEL ", "SFM ", "SGA ", "SGO ", "SGS ", "SHI ", "SHN ", "SIB ",
  "SID ", "SIG ", "SKS ", "SKY ", "SLA ", "SLV ", "SML ", "SMO ", "SNA ", "SNA0", "SND ", "SNH ",
  "SNK ", "SOG ", "SOP ", "SOT ", "SQI ", "SRB ", "SRD ", "SRK ", "SRR ", "SSL ", "SSM ", "STQ ",
  "SUK ", "SUN ", "SUR ", "SVA ", "SVE ", "SWA ", "SWK ", "SWZ ", "SXT ", "SXU ", "SYL ", "SYR ",
  "SYRE", "SYRJ", "SYRN", "SZL ", "TAB ", "TAJ ", "TAM ", "TAT ", "TCR ", "TDD ", "TEL ", "TET ",
  "TGL ", "TGN ", "TGR ", "TGY ", "THA ", "THT ", "TIB ", "TIV ", "TJL ", "TKM ", "TLI ", "TMH ",
  "TMN ", "TNA ", "TNE ", "TNG ", "TOD ", "TOD0", "TPI ", "TRK ", "TSG ", "TSJ ", "TUA ", "TUL ",
  "TUM ", "TUV ", "TVL ", "TWI ", "TYZ ", "TZM ", "TZO ", "UDM ", "UKR ", "UMB ", "URD ", "USB ",
  "UYG ", "UZB ", "VEC ", "VEN ", "VIT ", "VOL ", "VRO ", "WA  ", "WAG ", "WAR ", "WCI ", "WCR ",
  "WEL ", "WLF ", "WLN ", "WTM ", "XBD ", "XHS ", "XJB ", "XKF ", "XOG ", "XPE ", "XUB ", "XUJ ",
  "YAK ", "YAO ", "YAP ", "YBA ", "YCR ", "YGP ", "YIM ", "YNA ", "YWQ ", "ZEA ", "ZGH ", "ZHA ",
  "ZHH ", "ZHP ", "ZHS ", "ZHT ", "ZHTM", "ZND ", "ZUL ", "ZZA ">>
=============================================================================
