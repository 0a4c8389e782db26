------------------------------ MODULE LangIds ------------------------------
(* Language identifiers and their tags, as code points. *)
EXTENDS Naturals, Sequences
LangIds == <<
  <<1, <<97, 114>>>>,
  <<2, <<98, 103>>>>,
  <<3, <<99, 97>>>>,
  <<4, <<122, 104>>>>,
  <<5, <<99, 115>>>>,
  <<6, <<100, 97>>>>,
  <<7, <<100, 101>>>>,
  <<8, <<101, 108>>>>,
  <<9, <<101, 110>>>>,
  <<10, <<101, 115>>>>,
  <<11, <<102, 105>>>>,
  <<12, <<102, 114>>>>,
  <<13, <<104, 101>>>>,
  <<14, <<104, 117>>>>,
  <<15, <<105, 115>>>>,
  <<16, <<105, 116>>>>,
  <<17, <<106, 97>>>>,
  <<18, <<107, 111>>>>,
  <<19, <<110, 108>>>>,
  <<20, <<110, 98>>>>,
  <<21, <<112, 108>>>>,
  <<22, <<112, 116>>>>,
  <<23, <<114, 109>>>>,
  <<24, <<114, 111>>>>,
  <<25, <<114, 117>>>>,
  <<26, <<104, 114>>>>,
  <<27, <<115, 107>>>>,
  <<28, <<115, 113>>>>,
  <<29, <<115, 118>>>>,
  <<30, <<116, 104>>>>,
  <<31, <<116, 114>>>>,
  <<32, <<117, 114>>>>,
  <<33, <<105, 100>>>>,
  <<34, <<117, 107>>>>,
  <<35, <<98, 101>>>>,
  <<36, <<115, 108>>>>,
  <<37, <<101, 116>>>>,
  <<38, <<108, 118>>>>,
  <<39, <<108, 116>>>>,
  <<40, <<116, 103>>>>,
  <<41, <<102, 97>>>>,
  <<42, <<118, 105>>>>,
  <<43, <<104, 121>>>>,
  <<44, <<97, 122>>>>,
  <<45, <<101, 117>>>>,
  <<46, <<104, 115, 98>>>>,
  <<47, <<109, 107>>>>,
  <<48, <<115, 116>>>>,
  <<49, <<116, 115>>>>,
  <<50, <<116, 110>>>>,
  <<51, <<118, 101>>>>,
  <<52, <<120, 104>>>>,
  <<53, <<122, 117>>>>,
  <<54, <<97, 102>>>>,
  <<55, <<107, 97>>>>,
  <<56, <<102, 111>>>>,
  <<57, <<104, 105>>>>,
  <<58, <<109, 116>>>>,
  <<59, <<115, 101>>>>,
  <<60, <<103, 97>>>>,
  <<61, <<121, 105>>>>,
  <<62, <<109, 115>>>>,
  <<63, <<107, 107>>>>,
  <<64, <<107, 121>>>>,
  <<65, <<115, 119>>>>,
  <<66, <<116, 107>>>>,
  <<67, <<117, 122>>>>,
  <<68, <<116, 116>>>>,
  <<69, <<98, 110>>>>,
  <<70, <<112, 97>>>>,
  <<71, <<103, 117>>>>,
  <<72, <<111, 114>>>>,
  <<73, <<116, 97>>>>,
  <<74, <<116, 101>>>>,
  <<75, <<107, 110>>>>,
  <<76, <<109, 108>>>>,
  <<77, <<97, 115>>>>,
  <<78, <<109, 114>>>>,
  <<79, <<115, 97>>>>,
  <<80, <<109, 110>>>>,
  <<81, <<98, 111>>>>,
  <<82, <<99, 121>>>>,
  <<83, <<107, 109>>>>,
  <<84, <<108, 111>>>>,
  <<85, <<109, 121>>>>,
  <<86, <<103, 108>>>>,
  <<87, <<107, 111, 107>>>>,
  <<88, <<109, 110, 105>>>>,
  <<89, <<115, 100>>>>,
  <<90, <<115, 121, 114>>>>,
  <<91, <<115, 105>>>>,
  <<92, <<99, 104, 114>>>>,
  <<93, <<105, 117>>>>,
  <<94, <<97, 109>>>>,
  <<95, <<116, 122, 109>>>>,
  <<96, <<107, 115>>>>,
  <<97, <<110, 101>>>>,
  <<98, <<102, 121>>>>,
  <<99, <<112, 115>>>>,
  <<100, <<102, 105, 108>>>>,
  <<101, <<100, 118>>>>,
  <<102, <<98, 105, 110>>>>,
  <<103, <<102, 102>>>>,
  <<104, <<104, 97>>>>,
  <<105, <<105, 98, 98>>>>,
  <<106, <<121, 111>>>>,
  <<107, <<113, 117, 122>>>>,
  <<108, <<110, 115, 111>>>>,
  <<109, <<98, 97>>>>,
  <<110, <<108, 98>>>>,
  <<111, <<107, 108>>>>,
  <<112, <<105, 103>>>>,
  <<113, <<107, 114>>>>,
  <<114, <<111, 109>>>>,
  <<115, <<116, 105>>>>,
  <<116, <<103, 110>>>>,
  <<117, <<104, 97, 119>>>>,
  <<118, <<108, 97>>>>,
  <<119, <<115, 111>>>>,
  <<120, <<105, 105>>>>,
  <<121, <<112, 97, 112>>>>,
  <<122, <<97, 114, 110>>>>,
  <<124, <<109, 111, 104>>>>,
  <<126, <<98, 114>>>>,
  <<128, <<117, 103>>>>,
  <<129, <<109, 105>>>>,
  <<130, <<111, 99>>>>,
  <<131, <<99, 111>>>>,
  <<132, <<103, 115, 119>>>>,
  <<133, <<115, 97, 104>>>>,
  <<134, <<113, 117, 99>>>>,
  <<135, <<114, 119>>>>,
  <<136, <<119, 111>>>>,
  <<140, <<102, 97>>>>,
  <<145, <<103, 100>>>>,
  <<146, <<107, 117>>>>,
  <<1025, <<97, 114, 45, 83, 65>>>>,
  <<1026, <<98, 103, 45, 66, 71>>>>,
  <<1027, <<99, 97, 45, 69, 83>>>>,
  <<1028, <<122, 104, 45, 84, 87>>>>,
  <<1029, <<99, 115, 45, 67, 90>>>>,
  <<1030, <<100, 97, 45, 68, 75>>>>,
  <<1031, <<100, 101, 45, 68, 69>>>>,
  <<1032, <<101, 108, 45, 71, 82>>>>,
  <<1033, <<101, 110, 45, 85, 83>>>>,
  <<1034, <<101, 115, 45, 69, 83, 95, 116, 114, 97, 100, 110, 108>>>>,
  <<1035, <<102, 105, 45, 70, 73>>>>,
  <<1036, <<102, 114, 45, 70, 82>>>>,
  <<1037, <<104, 101, 45, 73, 76>>>>,
  <<1038, <<104, 117, 45, 72, 85>>>>,
  <<1039, <<105, 115, 45, 73, 83>>>>,
  <<1040, <<105, 116, 45, 73, 84>>>>,
  <<1041, <<106, 97, 45, 74, 80>>>>,
  <<1042, <<107, 111, 45, 75, 82>>>>,
  <<1043, <<110, 108, 45, 78, 76>>>>,
  <<1044, <<110, 98, 45, 78, 79>>>>,
  <<1045, <<112, 108, 45, 80, 76>>>>,
  <<1046, <<112, 116, 45, 66, 82>>>>,
  <<1047, <<114, 109, 45, 67, 72>>>>,
  <<1048, <<114, 111, 45, 82, 79>>>>,
  <<1049, <<114, 117, 45, 82, 85>>>>,
  <<1050, <<104, 114, 45, 72, 82>>>>,
  <<1051, <<115, 107, 45, 83, 75>>>>,
  <<1052, <<115, 113, 45, 65, 76>>>>,
  <<1053, <<115, 118, 45, 83, 69>>>>,
  <<1054, <<116, 104, 45, 84, 72>>>>,
  <<1055, <<116, 114, 45, 84, 82>>>>,
  <<1056, <<117, 114, 45, 80, 75>>>>,
  <<1057, <<105, 100, 45, 73, 68>>>>,
  <<1058, <<117, 107, 45, 85, 65>>>>,
  <<1059, <<98, 101, 45, 66, 89>>>>,
  <<1060, <<115, 108, 45, 83, 73>>>>,
  <<1061, <<101, 116, 45, 69, 69>>>>,
  <<1062, <<108, 118, 45, 76, 86>>>>,
  <<1063, <<108, 116, 45, 76, 84>>>>,
  <<1064, <<116, 103, 45, 67, 121, 114, 108, 45, 84, 74>>>>,
  <<1065, <<102, 97, 45, 73, 82>>>>,
  <<1066, <<118, 105, 45, 86, 78>>>>,
  <<1067, <<104, 121, 45, 65, 77>>>>,
  <<1068, <<97, 122, 45, 76, 97, 116, 110, 45, 65, 90>>>>,
  <<1069, <<101, 117, 45, 69, 83>>>>,
  <<1070, <<104, 115, 98, 45, 68, 69>>>>,
  <<1071, <<109, 107, 45, 77, 75>>>>,
  <<1072, <<115, 116, 45, 90, 65>>>>,
  <<1073, <<116, 115, 45, 90, 65>>>>,
  <<1074, <<116, 110, 45, 90, 65>>>>,
  <<1075, <<118, 101, 45, 90, 65>>>>,
  <<1076, <<120, 104, 45, 90, 65>>>>,
  <<1077, <<122, 117, 45, 90, 65>>>>,
  <<1078, <<97, 102, 45, 90, 65>>>>,
  <<1079, <<107, 97, 45, 71, 69>>>>,
  <<1080, <<102, 111, 45, 70, 79>>>>,
  <<1081, <<104, 105, 45, 73, 78>>>>,
  <<1082, <<109, 116, 45, 77, 84>>>>,
  <<1083, <<115, 101, 45, 78, 79>>>>,
  <<1085, <<121, 105, 45, 48, 48, 49>>>>,
  <<1086, <<109, 115, 45, 77, 89>>>>,
  <<1087, <<107, 107, 45, 75, 90>>>>,
  <<1088, <<107, 121, 45, 75, 71>>>>,
  <<1089, <<115, 119, 45, 75, 69>>>>,
  <<1090, <<116, 107, 45, 84, 77>>>>,
  <<1091, <<117, 122, 45, 76, 97, 116, 110, 45, 85, 90>>>>,
  <<1092, <<116, 116, 45, 82, 85>>>>,
  <<1093, <<98, 110, 45, 73, 78>>>>,
  <<1094, <<112, 97, 45, 73, 78>>>>,
  <<1095, <<103, 117, 45, 73, 78>>>>,
  <<1096, <<111, 114, 45, 73, 78>>>>,
  <<1097, <<116, 97, 45, 73, 78>>>>,
  <<1098, <<116, 101, 45, 73, 78>>>>,
  <<1099, <<107, 110, 45, 73, 78>>>>,
  <<1100, <<109, 108, 45, 73, 78>>>>,
  <<1101, <<97, 115, 45, 73, 78>>>>,
  <<1102, <<109, 114, 45, 73, 78>>>>,
  <<1103, <<115, 97, 45, 73, 78>>>>,
  <<1104, <<109, 110, 45, 77, 78>>>>,
  <<1105, <<98, 111, 45, 67, 78>>>>,
  <<1106, <<99, 121, 45, 71, 66>>>>,
  <<1107, <<107, 109, 45, 75, 72>>>>,
  <<1108, <<108, 111, 45, 76, 65>>>>,
  <<1109, <<109, 121, 45, 77, 77>>>>,
  <<1110, <<103, 108, 45, 69, 83>>>>,
  <<1111, <<107, 111, 107, 45, 73, 78>>>>,
  <<1112, <<109, 110, 105, 45, 73, 78>>>>,
  <<1113, <<115, 100, 45, 68, 101, 118, 97, 45, 73, 78>>>>,
  <<1114, <<115, 121, 114, 45, 83, 89>>>>,
  <<1115, <<115, 105, 45, 76, 75>>>>,
  <<1116, <<99, 104, 114, 45, 67, 104, 101, 114, 45, 85, 83>>>>,
  <<1117, <<105, 117, 45, 67, 97, 110, 115, 45, 67, 65>>>>,
  <<1118, <<97, 109, 45, 69, 84>>>>,
  <<1119, <<116, 122, 109, 45, 65, 114, 97, 98, 45, 77, 65>>>>,
  <<1120, <<107, 115, 45, 65, 114, 97, 98, 45, 73, 78>>>>,
  <<1121, <<110, 101, 45, 78, 80>>>>,
  <<1122, <<102, 121, 45, 78, 76>>>>,
  <<1123, <<112, 115, 45, 65, 70>>>>,
  <<1124, <<102, 105, 108, 45, 80, 72>>>>,
  <<1125, <<100, 118, 45, 77, 86>>>>,
  <<1126, <<98, 105, 110, 45, 78, 71>>>>,
  <<1127, <<102, 102, 45, 76, 97, 116, 110, 45, 78, 71>>>>,
  <<1128, <<104, 97, 45, 76, 97, 116, 110, 45, 78, 71>>>>,
  <<1129, <<105, 98, 98, 45, 78, 71>>>>,
  <<1130, <<121, 111, 45, 78, 71>>>>,
  <<1131, <<113, 117, 122, 45, 66, 79>>>>,
  <<1132, <<110, 115, 111, 45, 90, 65>>>>,
  <<1133, <<98, 97, 45, 82, 85>>>>,
  <<1134, <<108, 98, 45, 76, 85>>>>,
  <<1135, <<107, 108, 45, 71, 76>>>>,
  <<1136, <<105, 103, 45, 78, 71>>>>,
  <<1137, <<107, 114, 45, 76, 97, 116, 110, 45, 78, 71>>>>,
  <<1138, <<111, 109, 45, 69, 84>>>>,
  <<1139, <<116, 105, 45, 69, 84>>>>,
  <<1140, <<103, 110, 45, 80, 89>>>>,
  <<1141, <<104, 97, 119, 45, 85, 83>>>>,
  <<1142, <<108, 97, 45, 86, 65>>>>,
  <<1143, <<115, 111, 45, 83, 79>>>>,
  <<1144, <<105, 105, 45, 67, 78>>>>,
  <<1145, <<112, 97, 112, 45, 48, 50, 57>>>>,
  <<1146, <<97, 114, 110, 45, 67, 76>>>>,
  <<1148, <<109, 111, 104, 45, 67, 65>>>>,
  <<1150, <<98, 114, 45, 70, 82>>>>,
  <<1152, <<117, 103, 45, 67, 78>>>>,
  <<1153, <<109, 105, 45, 78, 90>>>>,
  <<1154, <<111, 99, 45, 70, 82>>>>,
  <<1155, <<99, 111, 45, 70, 82>>>>,
  <<1156, <<103, 115, 119, 45, 70, 82>>>>,
  <<1157, <<115, 97, 104, 45, 82, 85>>>>,
  <<1158, <<113, 117, 99, 45, 76, 97, 116, 110, 45, 71, 84>>>>,
  <<1159, <<114, 119, 45, 82, 87>>>>,
  <<1160, <<119, 111, 45, 83, 78>>>>,
  <<1164, <<102, 97, 45, 65, 70>>>>,
  <<1169, <<103, 100, 45, 71, 66>>>>,
  <<1170, <<107, 117, 45, 65, 114, 97, 98, 45, 73, 81>>>>,
  <<1281, <<113, 112, 115, 45, 112, 108, 111, 99>>>>,
  <<1534, <<113, 112, 115, 45, 112, 108, 111, 99, 97>>>>,
  <<2049, <<97, 114, 45, 73, 81>>>>,
  <<2051, <<99, 97, 45, 69, 83, 45, 118, 97, 108, 101, 110, 99, 105, 97>>>>,
  <<2052, <<122, 104, 45, 67, 78>>>>,
  <<2055, <<100, 101, 45, 67, 72>>>>,
  <<2057, <<101, 110, 45, 71, 66>>>>,
  <<2058, <<101, 115, 45, 77, 88>>>>,
  <<2060, <<102, 114, 45, 66, 69>>>>,
  <<2064, <<105, 116, 45, 67, 72>>>>,
  <<2067, <<110, 108, 45, 66, 69>>>>,
  <<2068, <<110, 110, 45, 78, 79>>>>,
  <<2070, <<112, 116, 45, 80, 84>>>>,
  <<2072, <<114, 111, 45, 77, 68>>>>,
  <<2073, <<114, 117, 45, 77, 68>>>>,
  <<2074, <<115, 114, 45, 76, 97, 116, 110, 45, 67, 83>>>>,
  <<2077, <<115, 118, 45, 70, 73>>>>,
  <<2080, <<117, 114, 45, 73, 78>>>>,
  <<2092, <<97, 122, 45, 67, 121, 114, 108, 45, 65, 90>>>>,
  <<2094, <<100, 115, 98, 45, 68, 69>>>>,
  <<2098, <<116, 110, 45, 66, 87>>>>,
  <<2107, <<115, 101, 45, 83, 69>>>>,
  <<2108, <<103, 97, 45, 73, 69>>>>,
  <<2110, <<109, 115, 45, 66, 78>>>>,
  <<2115, <<117, 122, 45, 67, 121, 114, 108, 45, 85, 90>>>>,
  <<2117, <<98, 110, 45, 66, 68>>>>,
  <<2118, <<112, 97, 45, 65, 114, 97, 98, 45, 80, 75>>>>,
  <<2121, <<116, 97, 45, 76, 75>>>>,
  <<2128, <<109, 110, 45, 77, 111, 110, 103, 45, 67, 78>>>>,
  <<2137, <<115, 100, 45, 65, 114, 97, 98, 45, 80, 75>>>>,
  <<2141, <<105, 117, 45, 76, 97, 116, 110, 45, 67, 65>>>>,
  <<2143, <<116, 122, 109, 45, 76, 97, 116, 110, 45, 68, 90>>>>,
  <<2144, <<107, 115, 45, 68, 101, 118, 97, 45, 73, 78>>>>,
  <<2145, <<110, 101, 45, 73, 78>>>>,
  <<2151, <<102, 102, 45, 76, 97, 116, 110, 45, 83, 78>>>>,
  <<2155, <<113, 117, 122, 45, 69, 67>>>>,
  <<2163, <<116, 105, 45, 69, 82>>>>,
  <<2305, <<113, 112, 115, 45, 76, 97, 116, 110, 45, 120, 45, 115, 104>>>>,
  <<2559, <<113, 112, 115, 45, 112, 108, 111, 99, 109>>>>,
  <<3073, <<97, 114, 45, 69, 71>>>>,
  <<3076, <<122, 104, 45, 72, 75>>>>,
  <<3079, <<100, 101, 45, 65, 84>>>>,
  <<3081, <<101, 110, 45, 65, 85>>>>,
  <<3082, <<101, 115, 45, 69, 83>>>>,
  <<3084, <<102, 114, 45, 67, 65>>>>,
  <<3098, <<115, 114, 45, 67, 121, 114, 108, 45, 67, 83>>>>,
  <<3131, <<115, 101, 45, 70, 73>>>>,
  <<3152, <<109, 110, 45, 77, 111, 110, 103, 45, 77, 78>>>>,
  <<3153, <<100, 122, 45, 66, 84>>>>,
  <<3179, <<113, 117, 122, 45, 80, 69>>>>,
  <<4097, <<97, 114, 45, 76, 89>>>>,
  <<4100, <<122, 104, 45, 83, 71>>>>,
  <<4103, <<100, 101, 45, 76, 85>>>>,
  <<4105, <<101, 110, 45, 67, 65>>>>,
  <<4106, <<101, 115, 45, 71, 84>>>>,
  <<4108, <<102, 114, 45, 67, 72>>>>,
  <<4122, <<104, 114, 45, 66, 65>>>>,
  <<4155, <<115, 109, 106, 45, 78, 79>>>>,
  <<4191, <<116, 122, 109, 45, 84, 102, 110, 103, 45, 77, 65>>>>,
  <<5121, <<97, 114, 45, 68, 90>>>>,
  <<5124, <<122, 104, 45, 77, 79>>>>,
  <<5127, <<100, 101, 45, 76, 73>>>>,
  <<5129, <<101, 110, 45, 78, 90>>>>,
  <<5130, <<101, 115, 45, 67, 82>>>>,
  <<5132, <<102, 114, 45, 76, 85>>>>,
  <<5146, <<98, 115, 45, 76, 97, 116, 110, 45, 66, 65>>>>,
  <<5179, <<115, 109, 106, 45, 83, 69>>>>,
  <<6145, <<97, 114, 45, 77, 65>>>>,
  <<6153, <<101, 110, 45, 73, 69>>>>,
  <<6154, <<101, 115, 45, 80, 65>>>>,
  <<6156, <<102, 114, 45, 77, 67>>>>,
  <<6170, <<115, 114, 45, 76, 97, 116, 110, 45, 66, 65>>>>,
  <<6203, <<115, 109, 97, 45, 78, 79>>>>,
  <<7169, <<97, 114, 45, 84, 78>>>>,
  <<7177, <<101, 110, 45, 90, 65>>>>,
  <<7178, <<101, 115, 45, 68, 79>>>>,
  <<7180, <<102, 114, 45, 48, 50, 57>>>>,
  <<7194, <<115, 114, 45, 67, 121, 114, 108, 45, 66, 65>>>>,
  <<7227, <<115, 109, 97, 45, 83, 69>>>>,
  <<8193, <<97, 114, 45, 79, 77>>>>,
  <<8201, <<101, 110, 45, 74, 77>>>>,
  <<8202, <<101, 115, 45, 86, 69>>>>,
  <<8204, <<102, 114, 45, 82, 69>>>>,
  <<8218, <<98, 115, 45, 67, 121, 114, 108, 45, 66, 65>>>>,
  <<8251, <<115, 109, 115, 45, 70, 73>>>>,
  <<9217, <<97, 114, 45, 89, 69>>>>,
  <<9225, <<101, 110, 45, 48, 50, 57>>>>,
  <<9226, <<101, 115, 45, 67, 79>>>>,
  <<9228, <<102, 114, 45, 67, 68>>>>,
  <<9242, <<115, 114, 45, 76, 97, 116, 110, 45, 82, 83>>>>,
  <<9275, <<115, 109, 110, 45, 70, 73>>>>,
  <<10241, <<97, 114, 45, 83, 89>>>>,
  <<10249, <<101, 110, 45, 66, 90>>>>,
  <<10250, <<101, 115, 45, 80, 69>>>>,
  <<10252, <<102, 114, 45, 83, 78>>>>,
  <<10266, <<115, 114, 45, 67, 121, 114, 108, 45, 82, 83>>>>,
  <<11265, <<97, 114, 45, 74, 79>>>>,
  <<11273, <<101, 110, 45, 84, 84>>>>,
  <<11274, <<101, 115, 45, 65, 82>>>>,
  <<11276, <<102, 114, 45, 67, 77>>>>,
  <<11290, <<115, 114, 45, 76, 97, 116, 110, 45, 77, 69>>>>,
  <<12289, <<97, 114, 45, 76, 66>>>>,
  <<12297, <<101, 110, 45, 90, 87>>>>,
  <<12298, <<101, 115, 45, 69, 67>>>>,
  <<12300, <<102, 114, 45, 67, 73>>>>,
  <<12314, <<115, 114, 45, 67, 121, 114, 108, 45, 77, 69>>>>,
  <<13313, <<97, 114, 45, 75, 87>>>>,
  <<13321, <<101, 110, 45, 80, 72>>>>,
  <<13322, <<101, 115, 45, 67, 76>>>>,
  <<13324, <<102, 114, 45, 77, 76>>>>,
  <<14337, <<97, 114, 45, 65, 69>>>>,
  <<14345, <<101, 110, 45, 73, 68>>>>,
  <<14346, <<101, 115, 45, 85, 89>>>>,
  <<14348, <<102, 114, 45, 77, 65>>>>,
  <<15361, <<97, 114, 45, 66, 72>>>>,
  <<15369, <<101, 110, 45, 72, 75>>>>,
  <<15370, <<101, 115, 45, 80, 89>>>>,
  <<15372, <<102, 114, 45, 72, 84>>>>,
  <<16385, <<97, 114, 45, 81, 65>>>>,
  <<16393, <<101, 110, 45, 73, 78>>>>,
  <<16394, <<101, 115, 45, 66, 79>>>>,
  <<17417, <<101, 110, 45, 77, 89>>>>,
  <<17418, <<101, 115, 45, 83, 86>>>>,
  <<18441, <<101, 110, 45, 83, 71>>>>,
  <<18442, <<101, 115, 45, 72, 78>>>>,
  <<19465, <<101, 110, 45, 65, 69>>>>,
  <<19466, <<101, 115, 45, 78, 73>>>>,
  <<20490, <<101, 115, 45, 80, 82>>>>,
  <<21514, <<101, 115, 45, 85, 83>>>>,
  <<22538, <<101, 115, 45, 52, 49, 57>>>>,
  <<23562, <<101, 115, 45, 67, 85>>>>,
  <<25626, <<98, 115, 45, 67, 121, 114, 108, 45, 66, 65>>>>,
  <<26650, <<98, 115, 45, 76, 97, 116, 110, 45, 66, 65>>>>,
  <<27674, <<115, 114, 45, 67, 121, 114, 108, 45, 82, 83>>>>,
  <<28698, <<115, 114, 45, 76, 97, 116, 110, 45, 82, 83>>>>,
  <<28731, <<115, 109, 110, 45, 70, 73>>>>,
  <<29740, <<97, 122, 45, 67, 121, 114, 108, 45, 65, 90>>>>,
  <<29755, <<115, 109, 115, 45, 70, 73>>>>,
  <<30724, <<122, 104, 45, 67, 78>>>>,
  <<30740, <<110, 110, 45, 78, 79>>>>,
  <<30746, <<98, 115, 45, 76, 97, 116, 110, 45, 66, 65>>>>,
  <<30764, <<97, 122, 45, 76, 97, 116, 110, 45, 65, 90>>>>,
  <<30779, <<115, 109, 97, 45, 83, 69>>>>,
  <<30787, <<117, 122, 45, 67, 121, 114, 108, 45, 85, 90>>>>,
  <<30800, <<109, 110, 45, 77, 78>>>>,
  <<30813, <<105, 117, 45, 67, 97, 110, 115, 45, 67, 65>>>>,
  <<30815, <<116, 122, 109, 45, 84, 102, 110, 103, 45, 77, 65>>>>,
  <<31748, <<122, 104, 45, 72, 75>>>>,
  <<31764, <<110, 98, 45, 78, 79>>>>,
  <<31770, <<115, 114, 45, 76, 97, 116, 110, 45, 82, 83>>>>,
  <<31784, <<116, 103, 45, 67, 121, 114, 108, 45, 84, 74>>>>,
  <<31790, <<100, 115, 98, 45, 68, 69>>>>,
  <<31803, <<115, 109, 106, 45, 83, 69>>>>,
  <<31811, <<117, 122, 45, 76, 97, 116, 110, 45, 85, 90>>>>,
  <<31814, <<112, 97, 45, 65, 114, 97, 98, 45, 80, 75>>>>,
  <<31824, <<109, 110, 45, 77, 111, 110, 103, 45, 67, 78>>>>,
  <<31833, <<115, 100, 45, 65, 114, 97, 98, 45, 80, 75>>>>,
  <<31836, <<99, 104, 114, 45, 67, 104, 101, 114, 45, 85, 83>>>>,
  <<31837, <<105, 117, 45, 76, 97, 116, 110, 45, 67, 65>>>>,
  <<31839, <<116, 122, 109, 45, 76, 97, 116, 110, 45, 68, 90>>>>,
  <<31847, <<102, 102, 45, 76, 97, 116, 110, 45, 83, 78>>>>,
  <<31848, <<104, 97, 45, 76, 97, 116, 110, 45, 78, 71>>>>,
  <<31878, <<113, 117, 99, 45, 76, 97, 116, 110, 45, 71, 84>>>>,
  <<31890, <<107, 117, 45, 65, 114, 97, 98, 45, 73, 81>>>> >>
=============================================================================
