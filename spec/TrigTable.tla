------------------------------ MODULE TrigTable ------------------------------
(* Cosines and sines in millionths: CosT[n][j + 1] = 10^6 cos(2 pi j / n).  Written by tools/mktrig.py;   *)
(* FourierMC checks the tables.                                                                         *)
EXTENDS Integers, TLC
CosT ==
  (1 :> <<1000000>>) @@
  (2 :> <<1000000, -1000000>>) @@
  (3 :> <<1000000, -500000, -500000>>) @@
  (4 :> <<1000000, 0, -1000000, 0>>) @@
  (5 :> <<1000000, 309017, -809017, -809017, 309017>>) @@
  (6 :> <<1000000, 500000, -500000, -1000000, -500000, 500000>>) @@
  (7 :> <<1000000, 623490, -222521, -900969, -900969, -222521, 623490>>) @@
  (8 :> <<1000000, 707107, 0, -707107, -1000000, -707107, 0, 707107>>) @@
  (9 :> <<1000000, 766044, 173648, -500000, -939693, -939693, -500000, 173648, 766044>>) @@
  (10 :> <<1000000, 809017, 309017, -309017, -809017, -1000000, -809017, -309017, 309017, 809017>>) @@
  (12 :> <<1000000, 866025, 500000, 0, -500000, -866025, -1000000, -866025, -500000, 0, 500000, 866025>>) @@
  (13 :> <<1000000, 885456, 568065, 120537, -354605, -748511, -970942, -970942, -748511, -354605, 120537, 568065, 885456>>) @@
  (15 :> <<1000000, 913545, 669131, 309017, -104528, -500000, -809017, -978148, -978148, -809017, -500000, -104528, 309017, 669131, 913545>>) @@
  (20 :> <<1000000, 951057, 809017, 587785, 309017, 0, -309017, -587785, -809017, -951057, -1000000, -951057, -809017, -587785, -309017, 0, 309017, 587785, 809017, 951057>>) @@
  (21 :> <<1000000, 955573, 826239, 623490, 365341, 74730, -222521, -500000, -733052, -900969, -988831, -988831, -900969, -733052, -500000, -222521, 74730, 365341, 623490, 826239, 955573>>) @@
  (28 :> <<1000000, 974928, 900969, 781831, 623490, 433884, 222521, 0, -222521, -433884, -623490, -781831, -900969, -974928, -1000000, -974928, -900969, -781831, -623490, -433884, -222521, 0, 222521, 433884, 623490, 781831, 900969, 974928>>) @@
  (30 :> <<1000000, 978148, 913545, 809017, 669131, 500000, 309017, 104528, -104528, -309017, -500000, -669131, -809017, -913545, -978148, -1000000, -978148, -913545, -809017, -669131, -500000, -309017, -104528, 104528, 309017, 500000, 669131, 809017, 913545, 978148>>) @@
  (36 :> <<1000000, 984808, 939693, 866025, 766044, 642788, 500000, 342020, 173648, 0, -173648, -342020, -500000, -642788, -766044, -866025, -939693, -984808, -1000000, -984808, -939693, -866025, -766044, -642788, -500000, -342020, -173648, 0, 173648, 342020, 500000, 642788, 766044, 866025, 939693, 984808>>) @@
  (60 :> <<1000000, 994522, 978148, 951057, 913545, 866025, 809017, 743145, 669131, 587785, 500000, 406737, 309017, 207912, 104528, 0, -104528, -207912, -309017, -406737, -500000, -587785, -669131, -743145, -809017, -866025, -913545, -951057, -978148, -994522, -1000000, -994522, -978148, -951057, -913545, -866025, -809017, -743145, -669131, -587785, -500000, -406737, -309017, -207912, -104528, 0, 104528, 207912, 309017, 406737, 500000, 587785, 669131, 743145, 809017, 866025, 913545, 951057, 978148, 994522>>) @@
  (84 :> <<1000000, 997204, 988831, 974928, 955573, 930874, 900969, 866025, 826239, 781831, 733052, 680173, 623490, 563320, 500000, 433884, 365341, 294755, 222521, 149042, 74730, 0, -74730, -149042, -222521, -294755, -365341, -433884, -500000, -563320, -623490, -680173, -733052, -781831, -826239, -866025, -900969, -930874, -955573, -974928, -988831, -997204, -1000000, -997204, -988831, -974928, -955573, -930874, -900969, -866025, -826239, -781831, -733052, -680173, -623490, -563320, -500000, -433884, -365341, -294755, -222521, -149042, -74730, 0, 74730, 149042, 222521, 294755, 365341, 433884, 500000, 563320, 623490, 680173, 733052, 781831, 826239, 866025, 900969, 930874, 955573, 974928, 988831, 997204>>)
SinT ==
  (1 :> <<0>>) @@
  (2 :> <<0, 0>>) @@
  (3 :> <<0, 866025, -866025>>) @@
  (4 :> <<0, 1000000, 0, -1000000>>) @@
  (5 :> <<0, 951057, 587785, -587785, -951057>>) @@
  (6 :> <<0, 866025, 866025, 0, -866025, -866025>>) @@
  (7 :> <<0, 781831, 974928, 433884, -433884, -974928, -781831>>) @@
  (8 :> <<0, 707107, 1000000, 707107, 0, -707107, -1000000, -707107>>) @@
  (9 :> <<0, 642788, 984808, 866025, 342020, -342020, -866025, -984808, -642788>>) @@
  (10 :> <<0, 587785, 951057, 951057, 587785, 0, -587785, -951057, -951057, -587785>>) @@
  (12 :> <<0, 500000, 866025, 1000000, 866025, 500000, 0, -500000, -866025, -1000000, -866025, -500000>>) @@
  (13 :> <<0, 464723, 822984, 992709, 935016, 663123, 239316, -239316, -663123, -935016, -992709, -822984, -464723>>) @@
  (15 :> <<0, 406737, 743145, 951057, 994522, 866025, 587785, 207912, -207912, -587785, -866025, -994522, -951057, -743145, -406737>>) @@
  (20 :> <<0, 309017, 587785, 809017, 951057, 1000000, 951057, 809017, 587785, 309017, 0, -309017, -587785, -809017, -951057, -1000000, -951057, -809017, -587785, -309017>>) @@
  (21 :> <<0, 294755, 563320, 781831, 930874, 997204, 974928, 866025, 680173, 433884, 149042, -149042, -433884, -680173, -866025, -974928, -997204, -930874, -781831, -563320, -294755>>) @@
  (28 :> <<0, 222521, 433884, 623490, 781831, 900969, 974928, 1000000, 974928, 900969, 781831, 623490, 433884, 222521, 0, -222521, -433884, -623490, -781831, -900969, -974928, -1000000, -974928, -900969, -781831, -623490, -433884, -222521>>) @@
  (30 :> <<0, 207912, 406737, 587785, 743145, 866025, 951057, 994522, 994522, 951057, 866025, 743145, 587785, 406737, 207912, 0, -207912, -406737, -587785, -743145, -866025, -951057, -994522, -994522, -951057, -866025, -743145, -587785, -406737, -207912>>) @@
  (36 :> <<0, 173648, 342020, 500000, 642788, 766044, 866025, 939693, 984808, 1000000, 984808, 939693, 866025, 766044, 642788, 500000, 342020, 173648, 0, -173648, -342020, -500000, -642788, -766044, -866025, -939693, -984808, -1000000, -984808, -939693, -866025, -766044, -642788, -500000, -342020, -173648>>) @@
  (60 :> <<0, 104528, 207912, 309017, 406737, 500000, 587785, 669131, 743145, 809017, 866025, 913545, 951057, 978148, 994522, 1000000, 994522, 978148, 951057, 913545, 866025, 809017, 743145, 669131, 587785, 500000, 406737, 309017, 207912, 104528, 0, -104528, -207912, -309017, -406737, -500000, -587785, -669131, -743145, -809017, -866025, -913545, -951057, -978148, -994522, -1000000, -994522, -978148, -951057, -913545, -866025, -809017, -743145, -669131, -587785, -500000, -406737, -309017, -207912, -104528>>) @@
  (84 :> <<0, 74730, 149042, 222521, 294755, 365341, 433884, 500000, 563320, 623490, 680173, 733052, 781831, 826239, 866025, 900969, 930874, 955573, 974928, 988831, 997204, 1000000, 997204, 988831, 974928, 955573, 930874, 900969, 866025, 826239, 781831, 733052, 680173, 623490, 563320, 500000, 433884, 365341, 294755, 222521, 149042, 74730, 0, -74730, -149042, -222521, -294755, -365341, -433884, -500000, -563320, -623490, -680173, -733052, -781831, -826239, -866025, -900969, -930874, -955573, -974928, -988831, -997204, -1000000, -997204, -988831, -974928, -955573, -930874, -900969, -866025, -826239, -781831, -733052, -680173, -623490, -563320, -500000, -433884, -365341, -294755, -222521, -149042, -74730>>)
Orders == {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 15, 20, 21, 28, 30, 36, 60, 84}
==============================================================================
