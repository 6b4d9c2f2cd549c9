---- MODULE TrigTable ----
EXTENDS Integers
(* SinT[2 d + 1] = round(10^6 * sin(d degrees)), d = 0, 0.5, .. 360.  Generated by tools/gen_tables.py *)
SinT == << 0, 8727, 17452, 26177, 34899, 43619, 52336, 61049, 69756, 78459, 87156, 95846, 104528, 113203, 121869, 130526, 139173, 147809, 156434, 165048, 173648, 182236, 190809, 199368, 207912, 216440, 224951, 233445, 241922, 250380, 258819, 267238, 275637, 284015, 292372, 300706, 309017, 317305, 325568, 333807, 342020, 350207, 358368, 366501, 374607, 382683, 390731, 398749, 406737, 414693, 422618, 430511, 438371, 446198, 453990, 461749, 469472, 477159, 484810, 492424, 500000, 507538, 515038, 522499, 529919, 537300, 544639, 551937, 559193, 566406, 573576, 580703, 587785, 594823, 601815, 608761, 615661, 622515, 629320, 636078, 642788, 649448, 656059, 662620, 669131, 675590, 681998, 688355, 694658, 700909, 707107, 713250, 719340, 725374, 731354, 737277, 743145, 748956, 754710, 760406, 766044, 771625, 777146, 782608, 788011, 793353, 798636, 803857, 809017, 814116, 819152, 824126, 829038, 833886, 838671, 843391, 848048, 852640, 857167, 861629, 866025, 870356, 874620, 878817, 882948, 887011, 891007, 894934, 898794, 902585, 906308, 909961, 913545, 917060, 920505, 923880, 927184, 930418, 933580, 936672, 939693, 942641, 945519, 948324, 951057, 953717, 956305, 958820, 961262, 963630, 965926, 968148, 970296, 972370, 974370, 976296, 978148, 979925, 981627, 983255, 984808, 986286, 987688, 989016, 990268, 991445, 992546, 993572, 994522, 995396, 996195, 996917, 997564, 998135, 998630, 999048, 999391, 999657, 999848, 999962, 1000000, 999962, 999848, 999657, 999391, 999048, 998630, 998135, 997564, 996917, 996195, 995396, 994522, 993572, 992546, 991445, 990268, 989016, 987688, 986286, 984808, 983255, 981627, 979925, 978148, 976296, 974370, 972370, 970296, 968148, 965926, 963630, 961262, 958820, 956305, 953717, 951057, 948324, 945519, 942641, 939693, 936672, 933580, 930418, 927184, 923880, 920505, 917060, 913545, 909961, 906308, 902585, 898794, 894934, 891007, 887011, 882948, 878817, 874620, 870356, 866025, 861629, 857167, 852640, 848048, 843391, 838671, 833886, 829038, 824126, 819152, 814116, 809017, 803857, 798636, 793353, 788011, 782608, 777146, 771625, 766044, 760406, 754710, 748956, 743145, 737277, 731354, 725374, 719340, 713250, 707107, 700909, 694658, 688355, 681998, 675590, 669131, 662620, 656059, 649448, 642788, 636078, 629320, 622515, 615661, 608761, 601815, 594823, 587785, 580703, 573576, 566406, 559193, 551937, 544639, 537300, 529919, 522499, 515038, 507538, 500000, 492424, 484810, 477159, 469472, 461749, 453990, 446198, 438371, 430511, 422618, 414693, 406737, 398749, 390731, 382683, 374607, 366501, 358368, 350207, 342020, 333807, 325568, 317305, 309017, 300706, 292372, 284015, 275637, 267238, 258819, 250380, 241922, 233445, 224951, 216440, 207912, 199368, 190809, 182236, 173648, 165048, 156434, 147809, 139173, 130526, 121869, 113203, 104528, 95846, 87156, 78459, 69756, 61049, 52336, 43619, 34899, 26177, 17452, 8727, 0, -8727, -17452, -26177, -34899, -43619, -52336, -61049, -69756, -78459, -87156, -95846, -104528, -113203, -121869, -130526, -139173, -147809, -156434, -165048, -173648, -182236, -190809, -199368, -207912, -216440, -224951, -233445, -241922, -250380, -258819, -267238, -275637, -284015, -292372, -300706, -309017, -317305, -325568, -333807, -342020, -350207, -358368, -366501, -374607, -382683, -390731, -398749, -406737, -414693, -422618, -430511, -438371, -446198, -453990, -461749, -469472, -477159, -484810, -492424, -500000, -507538, -515038, -522499, -529919, -537300, -544639, -551937, -559193, -566406, -573576, -580703, -587785, -594823, -601815, -608761, -615661, -622515, -629320, -636078, -642788, -649448, -656059, -662620, -669131, -675590, -681998, -688355, -694658, -700909, -707107, -713250, -719340, -725374, -731354, -737277, -743145, -748956, -754710, -760406, -766044, -771625, -777146, -782608, -788011, -793353, -798636, -803857, -809017, -814116, -819152, -824126, -829038, -833886, -838671, -843391, -848048, -852640, -857167, -861629, -866025, -870356, -874620, -878817, -882948, -887011, -891007, -894934, -898794, -902585, -906308, -909961, -913545, -917060, -920505, -923880, -927184, -930418, -933580, -936672, -939693, -942641, -945519, -948324, -951057, -953717, -956305, -958820, -961262, -963630, -965926, -968148, -970296, -972370, -974370, -976296, -978148, -979925, -981627, -983255, -984808, -986286, -987688, -989016, -990268, -991445, -992546, -993572, -994522, -995396, -996195, -996917, -997564, -998135, -998630, -999048, -999391, -999657, -999848, -999962, -1000000, -999962, -999848, -999657, -999391, -999048, -998630, -998135, -997564, -996917, -996195, -995396, -994522, -993572, -992546, -991445, -990268, -989016, -987688, -986286, -984808, -983255, -981627, -979925, -978148, -976296, -974370, -972370, -970296, -968148, -965926, -963630, -961262, -958820, -956305, -953717, -951057, -948324, -945519, -942641, -939693, -936672, -933580, -930418, -927184, -923880, -920505, -917060, -913545, -909961, -906308, -902585, -898794, -894934, -891007, -887011, -882948, -878817, -874620, -870356, -866025, -861629, -857167, -852640, -848048, -843391, -838671, -833886, -829038, -824126, -819152, -814116, -809017, -803857, -798636, -793353, -788011, -782608, -777146, -771625, -766044, -760406, -754710, -748956, -743145, -737277, -731354, -725374, -719340, -713250, -707107, -700909, -694658, -688355, -681998, -675590, -669131, -662620, -656059, -649448, -642788, -636078, -629320, -622515, -615661, -608761, -601815, -594823, -587785, -580703, -573576, -566406, -559193, -551937, -544639, -537300, -529919, -522499, -515038, -507538, -500000, -492424, -484810, -477159, -469472, -461749, -453990, -446198, -438371, -430511, -422618, -414693, -406737, -398749, -390731, -382683, -374607, -366501, -358368, -350207, -342020, -333807, -325568, -317305, -309017, -300706, -292372, -284015, -275637, -267238, -258819, -250380, -241922, -233445, -224951, -216440, -207912, -199368, -190809, -182236, -173648, -165048, -156434, -147809, -139173, -130526, -121869, -113203, -104528, -95846, -87156, -78459, -69756, -61049, -52336, -43619, -34899, -26177, -17452, -8727, 0 >>
====
