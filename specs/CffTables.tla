------------------------------ MODULE CffTables -----------------------------
(* Appendices A-C of the CFF specification (Adobe technical note 5176):     *)
(* standard strings, predefined encodings (code -> SID) and charsets.       *)
StdStrings == <<
  <<46, 110, 111, 116, 100, 101, 102>>,
  <<115, 112, 97, 99, 101>>,
  <<101, 120, 99, 108, 97, 109>>,
  <<113, 117, 111, 116, 101, 100, 98, 108>>,
  <<110, 117, 109, 98, 101, 114, 115, 105, 103, 110>>,
  <<100, 111, 108, 108, 97, 114>>,
  <<112, 101, 114, 99, 101, 110, 116>>,
  <<97, 109, 112, 101, 114, 115, 97, 110, 100>>,
  <<113, 117, 111, 116, 101, 114, 105, 103, 104, 116>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116>>,
  <<97, 115, 116, 101, 114, 105, 115, 107>>,
  <<112, 108, 117, 115>>,
  <<99, 111, 109, 109, 97>>,
  <<104, 121, 112, 104, 101, 110>>,
  <<112, 101, 114, 105, 111, 100>>,
  <<115, 108, 97, 115, 104>>,
  <<122, 101, 114, 111>>,
  <<111, 110, 101>>,
  <<116, 119, 111>>,
  <<116, 104, 114, 101, 101>>,
  <<102, 111, 117, 114>>,
  <<102, 105, 118, 101>>,
  <<115, 105, 120>>,
  <<115, 101, 118, 101, 110>>,
  <<101, 105, 103, 104, 116>>,
  <<110, 105, 110, 101>>,
  <<99, 111, 108, 111, 110>>,
  <<115, 101, 109, 105, 99, 111, 108, 111, 110>>,
  <<108, 101, 115, 115>>,
  <<101, 113, 117, 97, 108>>,
  <<103, 114, 101, 97, 116, 101, 114>>,
  <<113, 117, 101, 115, 116, 105, 111, 110>>,
  <<97, 116>>,
  <<65>>,
  <<66>>,
  <<67>>,
  <<68>>,
  <<69>>,
  <<70>>,
  <<71>>,
  <<72>>,
  <<73>>,
  <<74>>,
  <<75>>,
  <<76>>,
  <<77>>,
  <<78>>,
  <<79>>,
  <<80>>,
  <<81>>,
  <<82>>,
  <<83>>,
  <<84>>,
  <<85>>,
  <<86>>,
  <<87>>,
  <<88>>,
  <<89>>,
  <<90>>,
  <<98, 114, 97, 99, 107, 101, 116, 108, 101, 102, 116>>,
  <<98, 97, 99, 107, 115, 108, 97, 115, 104>>,
  <<98, 114, 97, 99, 107, 101, 116, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 99, 105, 114, 99, 117, 109>>,
  <<117, 110, 100, 101, 114, 115, 99, 111, 114, 101>>,
  <<113, 117, 111, 116, 101, 108, 101, 102, 116>>,
  <<97>>,
  <<98>>,
  <<99>>,
  <<100>>,
  <<101>>,
  <<102>>,
  <<103>>,
  <<104>>,
  <<105>>,
  <<106>>,
  <<107>>,
  <<108>>,
  <<109>>,
  <<110>>,
  <<111>>,
  <<112>>,
  <<113>>,
  <<114>>,
  <<115>>,
  <<116>>,
  <<117>>,
  <<118>>,
  <<119>>,
  <<120>>,
  <<121>>,
  <<122>>,
  <<98, 114, 97, 99, 101, 108, 101, 102, 116>>,
  <<98, 97, 114>>,
  <<98, 114, 97, 99, 101, 114, 105, 103, 104, 116>>,
  <<97, 115, 99, 105, 105, 116, 105, 108, 100, 101>>,
  <<101, 120, 99, 108, 97, 109, 100, 111, 119, 110>>,
  <<99, 101, 110, 116>>,
  <<115, 116, 101, 114, 108, 105, 110, 103>>,
  <<102, 114, 97, 99, 116, 105, 111, 110>>,
  <<121, 101, 110>>,
  <<102, 108, 111, 114, 105, 110>>,
  <<115, 101, 99, 116, 105, 111, 110>>,
  <<99, 117, 114, 114, 101, 110, 99, 121>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 108, 101, 102, 116>>,
  <<103, 117, 105, 108, 115, 105, 110, 103, 108, 114, 105, 103, 104, 116>>,
  <<102, 105>>,
  <<102, 108>>,
  <<101, 110, 100, 97, 115, 104>>,
  <<100, 97, 103, 103, 101, 114>>,
  <<100, 97, 103, 103, 101, 114, 100, 98, 108>>,
  <<112, 101, 114, 105, 111, 100, 99, 101, 110, 116, 101, 114, 101, 100>>,
  <<112, 97, 114, 97, 103, 114, 97, 112, 104>>,
  <<98, 117, 108, 108, 101, 116>>,
  <<113, 117, 111, 116, 101, 115, 105, 110, 103, 108, 98, 97, 115, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 98, 97, 115, 101>>,
  <<113, 117, 111, 116, 101, 100, 98, 108, 114, 105, 103, 104, 116>>,
  <<103, 117, 105, 108, 108, 101, 109, 111, 116, 114, 105, 103, 104, 116>>,
  <<101, 108, 108, 105, 112, 115, 105, 115>>,
  <<112, 101, 114, 116, 104, 111, 117, 115, 97, 110, 100>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 100, 111, 119, 110>>,
  <<103, 114, 97, 118, 101>>,
  <<97, 99, 117, 116, 101>>,
  <<99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<116, 105, 108, 100, 101>>,
  <<109, 97, 99, 114, 111, 110>>,
  <<98, 114, 101, 118, 101>>,
  <<100, 111, 116, 97, 99, 99, 101, 110, 116>>,
  <<100, 105, 101, 114, 101, 115, 105, 115>>,
  <<114, 105, 110, 103>>,
  <<99, 101, 100, 105, 108, 108, 97>>,
  <<104, 117, 110, 103, 97, 114, 117, 109, 108, 97, 117, 116>>,
  <<111, 103, 111, 110, 101, 107>>,
  <<99, 97, 114, 111, 110>>,
  <<101, 109, 100, 97, 115, 104>>,
  <<65, 69>>,
  <<111, 114, 100, 102, 101, 109, 105, 110, 105, 110, 101>>,
  <<76, 115, 108, 97, 115, 104>>,
  <<79, 115, 108, 97, 115, 104>>,
  <<79, 69>>,
  <<111, 114, 100, 109, 97, 115, 99, 117, 108, 105, 110, 101>>,
  <<97, 101>>,
  <<100, 111, 116, 108, 101, 115, 115, 105>>,
  <<108, 115, 108, 97, 115, 104>>,
  <<111, 115, 108, 97, 115, 104>>,
  <<111, 101>>,
  <<103, 101, 114, 109, 97, 110, 100, 98, 108, 115>>,
  <<111, 110, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<108, 111, 103, 105, 99, 97, 108, 110, 111, 116>>,
  <<109, 117>>,
  <<116, 114, 97, 100, 101, 109, 97, 114, 107>>,
  <<69, 116, 104>>,
  <<111, 110, 101, 104, 97, 108, 102>>,
  <<112, 108, 117, 115, 109, 105, 110, 117, 115>>,
  <<84, 104, 111, 114, 110>>,
  <<111, 110, 101, 113, 117, 97, 114, 116, 101, 114>>,
  <<100, 105, 118, 105, 100, 101>>,
  <<98, 114, 111, 107, 101, 110, 98, 97, 114>>,
  <<100, 101, 103, 114, 101, 101>>,
  <<116, 104, 111, 114, 110>>,
  <<116, 104, 114, 101, 101, 113, 117, 97, 114, 116, 101, 114, 115>>,
  <<116, 119, 111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<114, 101, 103, 105, 115, 116, 101, 114, 101, 100>>,
  <<109, 105, 110, 117, 115>>,
  <<101, 116, 104>>,
  <<109, 117, 108, 116, 105, 112, 108, 121>>,
  <<116, 104, 114, 101, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<99, 111, 112, 121, 114, 105, 103, 104, 116>>,
  <<65, 97, 99, 117, 116, 101>>,
  <<65, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<65, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<65, 103, 114, 97, 118, 101>>,
  <<65, 114, 105, 110, 103>>,
  <<65, 116, 105, 108, 100, 101>>,
  <<67, 99, 101, 100, 105, 108, 108, 97>>,
  <<69, 97, 99, 117, 116, 101>>,
  <<69, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<69, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<69, 103, 114, 97, 118, 101>>,
  <<73, 97, 99, 117, 116, 101>>,
  <<73, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<73, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<73, 103, 114, 97, 118, 101>>,
  <<78, 116, 105, 108, 100, 101>>,
  <<79, 97, 99, 117, 116, 101>>,
  <<79, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<79, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<79, 103, 114, 97, 118, 101>>,
  <<79, 116, 105, 108, 100, 101>>,
  <<83, 99, 97, 114, 111, 110>>,
  <<85, 97, 99, 117, 116, 101>>,
  <<85, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<85, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<85, 103, 114, 97, 118, 101>>,
  <<89, 97, 99, 117, 116, 101>>,
  <<89, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<90, 99, 97, 114, 111, 110>>,
  <<97, 97, 99, 117, 116, 101>>,
  <<97, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<97, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<97, 103, 114, 97, 118, 101>>,
  <<97, 114, 105, 110, 103>>,
  <<97, 116, 105, 108, 100, 101>>,
  <<99, 99, 101, 100, 105, 108, 108, 97>>,
  <<101, 97, 99, 117, 116, 101>>,
  <<101, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<101, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<101, 103, 114, 97, 118, 101>>,
  <<105, 97, 99, 117, 116, 101>>,
  <<105, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<105, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<105, 103, 114, 97, 118, 101>>,
  <<110, 116, 105, 108, 100, 101>>,
  <<111, 97, 99, 117, 116, 101>>,
  <<111, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<111, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<111, 103, 114, 97, 118, 101>>,
  <<111, 116, 105, 108, 100, 101>>,
  <<115, 99, 97, 114, 111, 110>>,
  <<117, 97, 99, 117, 116, 101>>,
  <<117, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120>>,
  <<117, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<117, 103, 114, 97, 118, 101>>,
  <<121, 97, 99, 117, 116, 101>>,
  <<121, 100, 105, 101, 114, 101, 115, 105, 115>>,
  <<122, 99, 97, 114, 111, 110>>,
  <<101, 120, 99, 108, 97, 109, 115, 109, 97, 108, 108>>,
  <<72, 117, 110, 103, 97, 114, 117, 109, 108, 97, 117, 116, 115, 109, 97, 108, 108>>,
  <<100, 111, 108, 108, 97, 114, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<100, 111, 108, 108, 97, 114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<97, 109, 112, 101, 114, 115, 97, 110, 100, 115, 109, 97, 108, 108>>,
  <<65, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 119, 111, 100, 111, 116, 101, 110, 108, 101, 97, 100, 101, 114>>,
  <<111, 110, 101, 100, 111, 116, 101, 110, 108, 101, 97, 100, 101, 114>>,
  <<122, 101, 114, 111, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<111, 110, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<116, 119, 111, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<116, 104, 114, 101, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<102, 111, 117, 114, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<102, 105, 118, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<115, 105, 120, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<115, 101, 118, 101, 110, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<101, 105, 103, 104, 116, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<110, 105, 110, 101, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<99, 111, 109, 109, 97, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 104, 114, 101, 101, 113, 117, 97, 114, 116, 101, 114, 115, 101, 109, 100, 97, 115, 104>>,
  <<112, 101, 114, 105, 111, 100, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 115, 109, 97, 108, 108>>,
  <<97, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<98, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<99, 101, 110, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<100, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<105, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<108, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<109, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 102>>,
  <<102, 102, 105>>,
  <<102, 102, 108>>,
  <<112, 97, 114, 101, 110, 108, 101, 102, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<112, 97, 114, 101, 110, 114, 105, 103, 104, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<67, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<104, 121, 112, 104, 101, 110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<71, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<65, 115, 109, 97, 108, 108>>,
  <<66, 115, 109, 97, 108, 108>>,
  <<67, 115, 109, 97, 108, 108>>,
  <<68, 115, 109, 97, 108, 108>>,
  <<69, 115, 109, 97, 108, 108>>,
  <<70, 115, 109, 97, 108, 108>>,
  <<71, 115, 109, 97, 108, 108>>,
  <<72, 115, 109, 97, 108, 108>>,
  <<73, 115, 109, 97, 108, 108>>,
  <<74, 115, 109, 97, 108, 108>>,
  <<75, 115, 109, 97, 108, 108>>,
  <<76, 115, 109, 97, 108, 108>>,
  <<77, 115, 109, 97, 108, 108>>,
  <<78, 115, 109, 97, 108, 108>>,
  <<79, 115, 109, 97, 108, 108>>,
  <<80, 115, 109, 97, 108, 108>>,
  <<81, 115, 109, 97, 108, 108>>,
  <<82, 115, 109, 97, 108, 108>>,
  <<83, 115, 109, 97, 108, 108>>,
  <<84, 115, 109, 97, 108, 108>>,
  <<85, 115, 109, 97, 108, 108>>,
  <<86, 115, 109, 97, 108, 108>>,
  <<87, 115, 109, 97, 108, 108>>,
  <<88, 115, 109, 97, 108, 108>>,
  <<89, 115, 109, 97, 108, 108>>,
  <<90, 115, 109, 97, 108, 108>>,
  <<99, 111, 108, 111, 110, 109, 111, 110, 101, 116, 97, 114, 121>>,
  <<111, 110, 101, 102, 105, 116, 116, 101, 100>>,
  <<114, 117, 112, 105, 97, 104>>,
  <<84, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<101, 120, 99, 108, 97, 109, 100, 111, 119, 110, 115, 109, 97, 108, 108>>,
  <<99, 101, 110, 116, 111, 108, 100, 115, 116, 121, 108, 101>>,
  <<76, 115, 108, 97, 115, 104, 115, 109, 97, 108, 108>>,
  <<83, 99, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<90, 99, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<68, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<66, 114, 101, 118, 101, 115, 109, 97, 108, 108>>,
  <<67, 97, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<68, 111, 116, 97, 99, 99, 101, 110, 116, 115, 109, 97, 108, 108>>,
  <<77, 97, 99, 114, 111, 110, 115, 109, 97, 108, 108>>,
  <<102, 105, 103, 117, 114, 101, 100, 97, 115, 104>>,
  <<104, 121, 112, 104, 101, 110, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<79, 103, 111, 110, 101, 107, 115, 109, 97, 108, 108>>,
  <<82, 105, 110, 103, 115, 109, 97, 108, 108>>,
  <<67, 101, 100, 105, 108, 108, 97, 115, 109, 97, 108, 108>>,
  <<113, 117, 101, 115, 116, 105, 111, 110, 100, 111, 119, 110, 115, 109, 97, 108, 108>>,
  <<111, 110, 101, 101, 105, 103, 104, 116, 104>>,
  <<116, 104, 114, 101, 101, 101, 105, 103, 104, 116, 104, 115>>,
  <<102, 105, 118, 101, 101, 105, 103, 104, 116, 104, 115>>,
  <<115, 101, 118, 101, 110, 101, 105, 103, 104, 116, 104, 115>>,
  <<111, 110, 101, 116, 104, 105, 114, 100>>,
  <<116, 119, 111, 116, 104, 105, 114, 100, 115>>,
  <<122, 101, 114, 111, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 111, 117, 114, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<102, 105, 118, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 105, 120, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<115, 101, 118, 101, 110, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<101, 105, 103, 104, 116, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<110, 105, 110, 101, 115, 117, 112, 101, 114, 105, 111, 114>>,
  <<122, 101, 114, 111, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<111, 110, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<116, 119, 111, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<116, 104, 114, 101, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<102, 111, 117, 114, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<102, 105, 118, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<115, 105, 120, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<115, 101, 118, 101, 110, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<101, 105, 103, 104, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<110, 105, 110, 101, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<99, 101, 110, 116, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<100, 111, 108, 108, 97, 114, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<112, 101, 114, 105, 111, 100, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<99, 111, 109, 109, 97, 105, 110, 102, 101, 114, 105, 111, 114>>,
  <<65, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<65, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<65, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<65, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<65, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<65, 114, 105, 110, 103, 115, 109, 97, 108, 108>>,
  <<65, 69, 115, 109, 97, 108, 108>>,
  <<67, 99, 101, 100, 105, 108, 108, 97, 115, 109, 97, 108, 108>>,
  <<69, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<69, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<69, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<69, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<73, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<73, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<73, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<73, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<69, 116, 104, 115, 109, 97, 108, 108>>,
  <<78, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<79, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<79, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<79, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<79, 116, 105, 108, 100, 101, 115, 109, 97, 108, 108>>,
  <<79, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<79, 69, 115, 109, 97, 108, 108>>,
  <<79, 115, 108, 97, 115, 104, 115, 109, 97, 108, 108>>,
  <<85, 103, 114, 97, 118, 101, 115, 109, 97, 108, 108>>,
  <<85, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<85, 99, 105, 114, 99, 117, 109, 102, 108, 101, 120, 115, 109, 97, 108, 108>>,
  <<85, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<89, 97, 99, 117, 116, 101, 115, 109, 97, 108, 108>>,
  <<84, 104, 111, 114, 110, 115, 109, 97, 108, 108>>,
  <<89, 100, 105, 101, 114, 101, 115, 105, 115, 115, 109, 97, 108, 108>>,
  <<48, 48, 49, 46, 48, 48, 48>>,
  <<48, 48, 49, 46, 48, 48, 49>>,
  <<48, 48, 49, 46, 48, 48, 50>>,
  <<48, 48, 49, 46, 48, 48, 51>>,
  <<66, 108, 97, 99, 107>>,
  <<66, 111, 108, 100>>,
  <<66, 111, 111, 107>>,
  <<76, 105, 103, 104, 116>>,
  <<77, 101, 100, 105, 117, 109>>,
  <<82, 101, 103, 117, 108, 97, 114>>,
  <<82, 111, 109, 97, 110>>,
  <<83, 101, 109, 105, 98, 111, 108, 100>>>>
StdEncoding == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 0, 111, 112, 113, 114, 0, 115, 116, 117, 118, 119, 120, 121, 122, 0, 123, 0, 124, 125, 126, 127, 128, 129, 130, 131, 0, 132, 133, 0, 134, 135, 136, 137, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 138, 0, 139, 0, 0, 0, 0, 140, 141, 142, 143, 0, 0, 0, 0, 0, 144, 0, 0, 0, 145, 0, 0, 146, 147, 148, 149, 0, 0, 0, 0>>
ExpertEncoding == <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 229, 230, 0, 231, 232, 233, 234, 235, 236, 237, 238, 13, 14, 15, 99, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 27, 28, 249, 250, 251, 252, 0, 253, 254, 255, 256, 257, 0, 0, 0, 258, 0, 0, 259, 260, 261, 262, 0, 0, 263, 264, 265, 0, 266, 109, 110, 267, 268, 269, 0, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 304, 305, 306, 0, 0, 307, 308, 309, 310, 311, 0, 312, 0, 0, 313, 0, 0, 314, 315, 0, 0, 316, 317, 318, 0, 0, 0, 158, 155, 163, 319, 320, 321, 322, 323, 324, 325, 0, 0, 326, 150, 164, 169, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378>>
IsoAdobe == <<0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42, 43, 44, 45, 46, 47, 48, 49, 50, 51, 52, 53, 54, 55, 56, 57, 58, 59, 60, 61, 62, 63, 64, 65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85, 86, 87, 88, 89, 90, 91, 92, 93, 94, 95, 96, 97, 98, 99, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 130, 131, 132, 133, 134, 135, 136, 137, 138, 139, 140, 141, 142, 143, 144, 145, 146, 147, 148, 149, 150, 151, 152, 153, 154, 155, 156, 157, 158, 159, 160, 161, 162, 163, 164, 165, 166, 167, 168, 169, 170, 171, 172, 173, 174, 175, 176, 177, 178, 179, 180, 181, 182, 183, 184, 185, 186, 187, 188, 189, 190, 191, 192, 193, 194, 195, 196, 197, 198, 199, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 210, 211, 212, 213, 214, 215, 216, 217, 218, 219, 220, 221, 222, 223, 224, 225, 226, 227, 228>>
ExpertCharset == <<0, 1, 229, 230, 231, 232, 233, 234, 235, 236, 237, 238, 13, 14, 15, 99, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 27, 28, 249, 250, 251, 252, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 109, 110, 267, 268, 269, 270, 271, 272, 273, 274, 275, 276, 277, 278, 279, 280, 281, 282, 283, 284, 285, 286, 287, 288, 289, 290, 291, 292, 293, 294, 295, 296, 297, 298, 299, 300, 301, 302, 303, 304, 305, 306, 307, 308, 309, 310, 311, 312, 313, 314, 315, 316, 317, 318, 158, 155, 163, 319, 320, 321, 322, 323, 324, 325, 326, 150, 164, 169, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346, 347, 348, 349, 350, 351, 352, 353, 354, 355, 356, 357, 358, 359, 360, 361, 362, 363, 364, 365, 366, 367, 368, 369, 370, 371, 372, 373, 374, 375, 376, 377, 378>>
ExpertSubset == <<0, 1, 231, 232, 235, 236, 237, 238, 13, 14, 15, 99, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 27, 28, 249, 250, 251, 253, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 264, 265, 266, 109, 110, 267, 268, 269, 270, 272, 300, 301, 302, 305, 314, 315, 158, 155, 163, 320, 321, 322, 323, 324, 325, 326, 150, 164, 169, 327, 328, 329, 330, 331, 332, 333, 334, 335, 336, 337, 338, 339, 340, 341, 342, 343, 344, 345, 346>>
=============================================================================
