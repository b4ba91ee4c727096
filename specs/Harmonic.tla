------------------------------ MODULE Harmonic ------------------------------
(* Harmonic representation: layout, series, derivative, time shift, stiffness.       *)
(* A harmonic list h is a sorted sequence of naturals; coefficients are listed        *)
(* harmonic by harmonic, cosine before sine, the mean (harmonic 0) has one component. *)
EXTENDS Integers, Sequences

\* cos(2 pi j / 192) * 10^6, first quarter
QTab == << 1000000, 999465, 997859, 995185, 991445, 986643, 980785, 973877, 965926, 956940, 946930, 935906, 923880, 910864, 896873, 881921, 866025, 849202, 831470, 812847, 793353, 773010, 751840, 729864, 707107, 683592, 659346, 634393, 608761, 582478, 555570, 528068, 500000, 471397, 442289, 412707, 382683, 352250, 321439, 290285, 258819, 227076, 195090, 162895, 130526, 98017, 65403, 32719, 0 >>
\* cos(2 pi j / 1260) * 10^6, first quarter (sample counts with factors 5, 7, 9)
QTab2 == << 1000000, 999988, 999950, 999888, 999801, 999689, 999552, 999391, 999204, 998993, 998757, 998496, 998210, 997899, 997564, 997204, 996819, 996409, 995974, 995515, 995031, 994522, 993988, 993430, 992847, 992239, 991607, 990950, 990268, 989562, 988831, 988075, 987295, 986491, 985661, 984808, 983930, 983027, 982100, 981148, 980172, 979172, 978148, 977099, 976025, 974928, 973806, 972660, 971490, 970296, 969077, 967835, 966568, 965278, 963963, 962624, 961262, 959875, 958465, 957031, 955573, 954091, 952586, 951057, 949504, 947927, 946327, 944704, 943057, 941386, 939693, 937975, 936235, 934471, 932684, 930874, 929040, 927184, 925304, 923402, 921476, 919528, 917556, 915562, 913545, 911506, 909444, 907359, 905251, 903121, 900969, 898794, 896597, 894377, 892136, 889872, 887586, 885278, 882948, 880596, 878222, 875826, 873408, 870969, 868508, 866025, 863521, 860996, 858449, 855880, 853291, 850680, 848048, 845395, 842721, 840026, 837310, 834573, 831816, 829038, 826239, 823419, 820580, 817719, 814839, 811938, 809017, 806076, 803115, 800134, 797133, 794112, 791071, 788011, 784931, 781831, 778713, 775574, 772417, 769240, 766044, 762830, 759596, 756343, 753071, 749781, 746472, 743145, 739799, 736435, 733052, 729651, 726232, 722795, 719340, 715867, 712376, 708868, 705342, 701798, 698237, 694658, 691063, 687450, 683820, 680173, 676509, 672828, 669131, 665416, 661686, 657939, 654175, 650396, 646600, 642788, 638960, 635116, 631256, 627381, 623490, 619583, 615661, 611724, 607772, 603804, 599822, 595824, 591812, 587785, 583744, 579688, 575617, 571532, 567433, 563320, 559193, 555052, 550897, 546728, 542546, 538351, 534142, 529919, 525684, 521435, 517174, 512899, 508612, 504312, 500000, 495675, 491338, 486989, 482627, 478254, 473869, 469472, 465063, 460642, 456211, 451768, 447313, 442848, 438371, 433884, 429386, 424877, 420357, 415827, 411287, 406737, 402176, 397605, 393025, 388435, 383835, 379225, 374607, 369978, 365341, 360695, 356039, 351375, 346702, 342020, 337330, 332631, 327925, 323210, 318487, 313756, 309017, 304271, 299517, 294755, 289986, 285210, 280427, 275637, 270840, 266037, 261227, 256410, 251587, 246757, 241922, 237080, 232233, 227380, 222521, 217657, 212787, 207912, 203031, 198146, 193256, 188361, 183461, 178557, 173648, 168735, 163818, 158897, 153971, 149042, 144109, 139173, 134233, 129290, 124344, 119394, 114442, 109486, 104528, 99568, 94605, 89639, 84672, 79702, 74730, 69756, 64781, 59804, 54826, 49846, 44865, 39883, 34899, 29915, 24931, 19945, 14959, 9973, 4987, 0 >>
CMod2(j) == ((j % 1260) + 1260) % 1260
Cos2(j) == LET m == CMod2(j) IN
           IF m <= 315 THEN QTab2[m + 1]
           ELSE IF m <= 630 THEN -QTab2[630 - m + 1]
           ELSE IF m <= 945 THEN -QTab2[m - 630 + 1]
           ELSE QTab2[1260 - m + 1]
CMod(j) == ((j % 192) + 192) % 192
Cos(j) == LET m == CMod(j) IN
          IF m <= 48 THEN QTab[m + 1]
          ELSE IF m <= 96 THEN -QTab[96 - m + 1]
          ELSE IF m <= 144 THEN -QTab[m - 96 + 1]
          ELSE QTab[192 - m + 1]
Sin(j) == Cos(j - 48)

HAbs(x) == IF x < 0 THEN -x ELSE x
HNear(a, b, t) == HAbs(a - b) <= t
\* the table satisfies the identities that characterise cos and sin
ASSUME QTab[1] = 1000000 /\ QTab[49] = 0 /\ QTab[33] = 500000
ASSUME \A j \in 1..48 : QTab[j + 1] < QTab[j]
ASSUME \A j \in 0..191 : HNear((Cos(j) \div 100) * (Cos(j) \div 100) + (Sin(j) \div 100) * (Sin(j) \div 100),
                               100000000, 30000)
ASSUME \A j \in 0..95 :     \* doubling
         HNear(Cos(2 * j), (2 * ((Cos(j) \div 100) * (Cos(j) \div 100))) \div 100 - 1000000, 500)

ASSUME QTab2[1] = 1000000 /\ QTab2[316] = 0 /\ QTab2[211] = 500000
ASSUME \A j \in 1..315 : QTab2[j + 1] < QTab2[j]
ASSUME \A j \in 0..629 : HNear(Cos2(2 * j), (2 * ((Cos2(j) \div 100) * (Cos2(j) \div 100))) \div 100 - 1000000, 500)
ASSUME \A j \in 0..11 : HNear(Cos(16 * j), Cos2(105 * j), 0)      \* common twelfths
\* cos and sin (times 10^6) of the fraction a / n of a turn, n a divisor of 192 or of 1260
CosT(a, n) == IF 192 % n = 0 THEN Cos(a * (192 \div n)) ELSE Cos2(a * (1260 \div n))
SinT(a, n) == IF 192 % n = 0 THEN Sin(a * (192 \div n)) ELSE Cos2(a * (1260 \div n) - 315)

Comps(k) == IF k = 0 THEN 1 ELSE 2
RECURSIVE NhcUpTo(_, _)
NhcUpTo(h, n) == IF n = 0 THEN 0 ELSE Comps(h[n]) + NhcUpTo(h, n - 1)
NhcOf(h) == NhcUpTo(h, Len(h))
\* component number (1-based) of the cosine part of the i-th listed harmonic
CosRow(h, i) == NhcUpTo(h, i - 1) + 1
SinRow(h, i) == CosRow(h, i) + 1

\* harmonic and part of each component
RECURSIVE Layout(_)
Layout(h) == IF h = <<>> THEN <<>>
             ELSE IF Head(h) = 0 THEN << <<0, "c">> >> \o Layout(Tail(h))
             ELSE << <<Head(h), "c">>, <<Head(h), "s">> >> \o Layout(Tail(h))

RECURSIVE HSum(_, _)
HSum(f(_), n) == IF n = 0 THEN 0 ELSE f(n) + HSum(f, n - 1)

\* value (times 10^6) of the series with coefficients x at fraction j/n of the period
Basis(L, r, j, n) == IF L[r][2] = "c" THEN CosT(L[r][1] * j, n) ELSE SinT(L[r][1] * j, n)
Series(L, x, j, n) == HSum(LAMBDA r : x[r] * Basis(L, r, j, n), Len(L))

\* time derivative (fundamental frequency 1)
Deriv(L, x) == [r \in 1..Len(L) |->
   IF L[r][1] = 0 THEN 0
   ELSE IF L[r][2] = "c" THEN L[r][1] * x[r + 1] ELSE -L[r][1] * x[r - 1]]
RECURSIVE DerivN(_, _, _)
DerivN(L, x, o) == IF o = 0 THEN x ELSE DerivN(L, Deriv(L, x), o - 1)

\* x delayed by p/192 of the period (times 10^6)
Delay(L, x, p) == [r \in 1..Len(L) |->
   IF L[r][1] = 0 THEN 1000000 * x[r]
   ELSE IF L[r][2] = "c" THEN x[r] * Cos(L[r][1] * p) - x[r + 1] * Sin(L[r][1] * p)
   ELSE x[r - 1] * Sin(L[r][1] * p) + x[r] * Cos(L[r][1] * p)]

\* entry of the harmonic stiffness at block (r, q) of the layout and its w derivative,
\* for matrix entries m, c, k of the mass, damping and stiffness matrices
StiffEntry(L, r, q, m, c, k, w) ==
  IF r = q THEN k - L[r][1] * L[r][1] * w * w * m
  ELSE IF L[r][1] = L[q][1] THEN (IF L[r][2] = "c" THEN L[r][1] * w * c ELSE -L[r][1] * w * c)
  ELSE 0
StiffDw(L, r, q, m, c, w) ==
  IF r = q THEN -2 * w * L[r][1] * L[r][1] * m
  ELSE IF L[r][1] = L[q][1] THEN (IF L[r][2] = "c" THEN L[r][1] * c ELSE -L[r][1] * c)
  ELSE 0
=============================================================================
