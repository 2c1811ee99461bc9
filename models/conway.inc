{2,1,{1,1}},
{2,2,{1,1,1}},
{2,3,{1,1,0,1}},
{2,4,{1,1,0,0,1}},
{2,5,{1,0,1,0,0,1}},
{2,6,{1,1,0,1,1,0,1}},
{2,7,{1,1,0,0,0,0,0,1}},
{2,8,{1,0,1,1,1,0,0,0,1}},
{2,9,{1,0,0,0,1,0,0,0,0,1}},
{2,10,{1,1,1,1,0,1,1,0,0,0,1}},
{3,1,{1,1}},
{3,2,{2,2,1}},
{3,3,{1,2,0,1}},
{3,4,{2,0,0,2,1}},
{3,5,{1,2,0,0,0,1}},
{3,6,{2,2,1,0,2,0,1}},
{3,7,{1,0,2,0,0,0,0,1}},
{5,1,{3,1}},
{5,2,{2,4,1}},
{5,3,{3,3,0,1}},
{5,4,{2,4,4,0,1}},
{5,5,{3,4,0,0,0,1}},
{7,1,{4,1}},
{7,2,{3,6,1}},
{7,3,{4,0,6,1}},
{7,4,{3,4,5,0,1}},
{11,1,{9,1}},
{11,2,{2,7,1}},
{11,3,{9,2,0,1}},
{13,1,{11,1}},
{13,2,{2,12,1}},
{13,3,{11,2,0,1}},
{17,1,{14,1}},
{17,2,{3,16,1}},
{19,1,{17,1}},
{19,2,{2,18,1}},
{23,1,{18,1}},
{23,2,{5,21,1}},
{29,1,{27,1}},
{29,2,{2,24,1}},
{31,1,{28,1}},
{31,2,{3,29,1}},
{37,1,{35,1}},
{37,2,{2,33,1}},
{41,1,{35,1}},
{41,2,{6,38,1}},
{43,1,{40,1}},
{43,2,{3,42,1}},
{47,1,{42,1}},
{47,2,{5,45,1}},
{53,1,{51,1}},
{53,2,{2,49,1}},
{59,1,{57,1}},
{59,2,{2,58,1}},
{61,1,{59,1}},
{61,2,{2,60,1}},
{67,1,{65,1}},
{67,2,{2,63,1}},
{71,1,{64,1}},
{71,2,{7,69,1}},
{73,1,{68,1}},
{73,2,{5,70,1}},
{79,1,{76,1}},
{79,2,{3,78,1}},
{83,1,{81,1}},
{83,2,{2,82,1}},
{89,1,{86,1}},
{89,2,{3,82,1}},
{97,1,{92,1}},
{97,2,{5,96,1}},
{101,1,{99,1}},
{103,1,{98,1}},
{107,1,{105,1}},
{109,1,{103,1}},
{113,1,{110,1}},
{127,1,{124,1}},
{131,1,{129,1}},
{137,1,{134,1}},
{139,1,{137,1}},
{149,1,{147,1}},
{151,1,{145,1}},
{157,1,{152,1}},
{163,1,{161,1}},
{167,1,{162,1}},
{173,1,{171,1}},
{179,1,{177,1}},
{181,1,{179,1}},
{191,1,{172,1}},
{193,1,{188,1}},
{197,1,{195,1}},
{199,1,{196,1}},
{211,1,{209,1}},
{223,1,{220,1}},
{227,1,{225,1}},
{229,1,{223,1}},
{233,1,{230,1}},
{239,1,{232,1}},
{241,1,{234,1}},
{251,1,{245,1}},
{257,1,{254,1}},
{263,1,{258,1}},
{269,1,{267,1}},
{271,1,{265,1}},
{277,1,{272,1}},
{281,1,{278,1}},
{283,1,{280,1}},
{293,1,{291,1}},
{307,1,{302,1}},
{311,1,{294,1}},
{313,1,{303,1}},
{317,1,{315,1}},
{331,1,{328,1}},
{337,1,{327,1}},
{347,1,{345,1}},
{349,1,{347,1}},
{353,1,{350,1}},
{359,1,{352,1}},
{367,1,{361,1}},
{373,1,{371,1}},
{379,1,{377,1}},
{383,1,{378,1}},
{389,1,{387,1}},
{397,1,{392,1}},
{401,1,{398,1}},
{409,1,{388,1}},
{419,1,{417,1}},
{421,1,{419,1}},
{431,1,{424,1}},
{433,1,{428,1}},
{439,1,{424,1}},
{443,1,{441,1}},
{449,1,{446,1}},
{457,1,{444,1}},
{461,1,{459,1}},
{463,1,{460,1}},
{467,1,{465,1}},
{479,1,{466,1}},
{487,1,{484,1}},
{491,1,{489,1}},
{499,1,{492,1}},
{503,1,{498,1}},
{509,1,{507,1}},
{521,1,{518,1}},
{523,1,{521,1}},
{541,1,{539,1}},
{547,1,{545,1}},
{557,1,{555,1}},
{563,1,{561,1}},
{569,1,{566,1}},
{571,1,{568,1}},
{577,1,{572,1}},
{587,1,{585,1}},
{593,1,{590,1}},
{599,1,{592,1}},
{601,1,{594,1}},
{607,1,{604,1}},
{613,1,{611,1}},
{617,1,{614,1}},
{619,1,{617,1}},
{631,1,{628,1}},
{641,1,{638,1}},
{643,1,{632,1}},
{647,1,{642,1}},
{653,1,{651,1}},
{659,1,{657,1}},
{661,1,{659,1}},
{673,1,{668,1}},
{677,1,{675,1}},
{683,1,{678,1}},
{691,1,{688,1}},
{701,1,{699,1}},
{709,1,{707,1}},
{719,1,{708,1}},
{727,1,{722,1}},
{733,1,{727,1}},
{739,1,{736,1}},
{743,1,{738,1}},
{751,1,{748,1}},
{757,1,{755,1}},
{761,1,{755,1}},
{769,1,{758,1}},
{773,1,{771,1}},
{787,1,{785,1}},
{797,1,{795,1}},
{809,1,{806,1}},
{811,1,{808,1}},
{821,1,{819,1}},
{823,1,{820,1}},
{827,1,{825,1}},
{829,1,{827,1}},
{839,1,{828,1}},
{853,1,{851,1}},
{857,1,{854,1}},
{859,1,{857,1}},
{863,1,{858,1}},
{877,1,{875,1}},
{881,1,{878,1}},
{883,1,{881,1}},
{887,1,{882,1}},
{907,1,{905,1}},
{911,1,{894,1}},
{919,1,{912,1}},
{929,1,{926,1}},
{937,1,{932,1}},
{941,1,{939,1}},
{947,1,{945,1}},
{953,1,{950,1}},
{967,1,{962,1}},
{971,1,{965,1}},
{977,1,{974,1}},
{983,1,{978,1}},
{991,1,{985,1}},
{997,1,{990,1}},
{1009,1,{998,1}},
{1013,1,{1010,1}},
{1019,1,{1017,1}},
{1021,1,{1011,1}},
{1031,1,{1017,1}},
{1033,1,{1028,1}},
{1039,1,{1036,1}},
{1049,1,{1046,1}},
{1051,1,{1044,1}},
{1061,1,{1059,1}},
{1063,1,{1060,1}},
{1069,1,{1063,1}},
{1087,1,{1084,1}},
{1091,1,{1089,1}},
{1093,1,{1088,1}},
{1097,1,{1094,1}},
{1103,1,{1098,1}},
{1109,1,{1107,1}},
{1117,1,{1115,1}},
{1123,1,{1121,1}},
{1129,1,{1118,1}},
{1151,1,{1134,1}},
{1153,1,{1148,1}},
{1163,1,{1158,1}},
{1171,1,{1169,1}},
{1181,1,{1174,1}},
{1187,1,{1185,1}},
{1193,1,{1190,1}},
