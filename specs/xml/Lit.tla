------------------------------- MODULE Lit --------------------------------
(* Literal strings of XML as code points. *)
L_XMLDECL == <<60,63,120,109,108>>
L_PIEND == <<63,62>>
L_CMT == <<60,33,45,45>>
L_CMTEND == <<45,45,62>>
L_DD == <<45,45>>
L_CD == <<60,33,91,67,68,65,84,65,91>>
L_CDEND == <<93,93,62>>
L_PI == <<60,63>>
L_ETAGO == <<60,47>>
L_EMPTYEND == <<47,62>>
L_VERSION == <<118,101,114,115,105,111,110>>
L_ENCODING == <<101,110,99,111,100,105,110,103>>
L_STANDALONE == <<115,116,97,110,100,97,108,111,110,101>>
L_YES == <<121,101,115>>
L_NO == <<110,111>>
L_V1 == <<49,46>>
L_DOCTYPE == <<60,33,68,79,67,84,89,80,69>>
L_SYSTEM == <<83,89,83,84,69,77>>
L_PUBLIC == <<80,85,66,76,73,67>>
L_ELEMENT == <<60,33,69,76,69,77,69,78,84>>
L_ATTLIST == <<60,33,65,84,84,76,73,83,84>>
L_ENTITY == <<60,33,69,78,84,73,84,89>>
L_NOTATION == <<60,33,78,79,84,65,84,73,79,78>>
L_EMPTY == <<69,77,80,84,89>>
L_ANY == <<65,78,89>>
L_PCDATA == <<35,80,67,68,65,84,65>>
L_NOTN == <<78,79,84,65,84,73,79,78>>
L_CDATA == <<67,68,65,84,65>>
L_IDREFS == <<73,68,82,69,70,83>>
L_IDREF == <<73,68,82,69,70>>
L_ID == <<73,68>>
L_ENTITIES == <<69,78,84,73,84,73,69,83>>
L_ENTITY1 == <<69,78,84,73,84,89>>
L_NMTOKENS == <<78,77,84,79,75,69,78,83>>
L_NMTOKEN == <<78,77,84,79,75,69,78>>
L_REQUIRED == <<35,82,69,81,85,73,82,69,68>>
L_IMPLIED == <<35,73,77,80,76,73,69,68>>
L_FIXED == <<35,70,73,88,69,68>>
L_NDATA == <<78,68,65,84,65>>
L_XML == <<120,109,108>>
L_LT == <<108,116>>
L_GT == <<103,116>>
L_AMP == <<97,109,112>>
L_APOS == <<97,112,111,115>>
L_QUOT == <<113,117,111,116>>
L_HEX == <<38,35,120>>
L_DEC == <<38,35>>
L_MIXEND == <<41,42>>
=============================================================================
