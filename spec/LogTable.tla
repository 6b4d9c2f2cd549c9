---- MODULE LogTable ----
(* LogT[n][i+1] = round(10^6 * log10(1 + 9 i / n)), i = 0..n.  Generated by tools/gen_tables.py *)
LogMax == 16
LogT == <<
  <<0, 1000000>>,
  <<0, 740363, 1000000>>,
  <<0, 602060, 845098, 1000000>>,
  <<0, 511883, 740363, 889302, 1000000>>,
  <<0, 447158, 662758, 806180, 913814, 1000000>>,
  <<0, 397940, 602060, 740363, 845098, 929419, 1000000>>,
  <<0, 359022, 552842, 686381, 788370, 870905, 940232, 1000000>>,
  <<0, 327359, 511883, 640978, 740363, 821186, 889302, 948168, 1000000>>,
  <<0, 301030, 477121, 602060, 698970, 778151, 845098, 903090, 954243, 1000000>>,
  <<0, 278754, 447158, 568202, 662758, 740363, 806180, 863323, 913814, 959041, 1000000>>,
  <<0, 259637, 421005, 538391, 630705, 706795, 771521, 827839, 877685, 922395, 962929, 1000000>>,
  <<0, 243038, 397940, 511883, 602060, 676694, 740363, 795880, 845098, 889302, 929419, 966142, 1000000>>,
  <<0, 228479, 377418, 488117, 576253, 649485, 712131, 766870, 815476, 859185, 898894, 935275, 968842, 1000000>>,
  <<0, 215600, 359022, 466656, 552842, 624724, 686381, 740363, 788370, 831596, 870905, 906950, 940232, 971143, 1000000>>,
  <<0, 204120, 342423, 447158, 531479, 602060, 662758, 716003, 763428, 806180, 845098, 880814, 913814, 944483, 973128, 1000000>>,
  <<0, 193820, 327359, 429348, 511883, 581210, 640978, 693507, 740363, 782652, 821186, 856578, 889302, 919732, 948168, 974857, 1000000>> >>
====
