------------------------------- MODULE LogTable -------------------------------
(* Logarithms and exponentials.  Written by tools/mklog.py.                                               *)
(* LogT[n - 255] = 10^5 ln n for n = 256..511, ExpT[j + 1] = 10^6 exp(-j / 8)                              *)
LogT == <<
  554518, 554908, 555296, 555683, 556068, 556452, 556834, 557215, 557595, 557973, 558350, 558725,
  559099, 559471, 559842, 560212, 560580, 560947, 561313, 561677, 562040, 562402, 562762, 563121,
  563479, 563835, 564191, 564545, 564897, 565249, 565599, 565948, 566296, 566643, 566988, 567332,
  567675, 568017, 568358, 568698, 569036, 569373, 569709, 570044, 570378, 570711, 571043, 571373,
  571703, 572031, 572359, 572685, 573010, 573334, 573657, 573979, 574300, 574620, 574939, 575257,
  575574, 575890, 576205, 576519, 576832, 577144, 577455, 577765, 578074, 578383, 578690, 578996,
  579301, 579606, 579909, 580212, 580513, 580814, 581114, 581413, 581711, 582008, 582305, 582600,
  582895, 583188, 583481, 583773, 584064, 584354, 584644, 584932, 585220, 585507, 585793, 586079,
  586363, 586647, 586930, 587212, 587493, 587774, 588053, 588332, 588610, 588888, 589164, 589440,
  589715, 589990, 590263, 590536, 590808, 591080, 591350, 591620, 591889, 592158, 592426, 592693,
  592959, 593225, 593489, 593754, 594017, 594280, 594542, 594803, 595064, 595324, 595584, 595842,
  596101, 596358, 596615, 596871, 597126, 597381, 597635, 597889, 598141, 598394, 598645, 598896,
  599146, 599396, 599645, 599894, 600141, 600389, 600635, 600881, 601127, 601372, 601616, 601859,
  602102, 602345, 602587, 602828, 603069, 603309, 603548, 603787, 604025, 604263, 604501, 604737,
  604973, 605209, 605444, 605678, 605912, 606146, 606379, 606611, 606843, 607074, 607304, 607535,
  607764, 607993, 608222, 608450, 608677, 608904, 609131, 609357, 609582, 609807, 610032, 610256,
  610479, 610702, 610925, 611147, 611368, 611589, 611810, 612030, 612249, 612468, 612687, 612905,
  613123, 613340, 613556, 613773, 613988, 614204, 614419, 614633, 614847, 615060, 615273, 615486,
  615698, 615910, 616121, 616331, 616542, 616752, 616961, 617170, 617379, 617587, 617794, 618002,
  618208, 618415, 618621, 618826, 619032, 619236, 619441, 619644, 619848, 620051, 620254, 620456,
  620658, 620859, 621060, 621261, 621461, 621661, 621860, 622059, 622258, 622456, 622654, 622851,
  623048, 623245, 623441, 623637>>
ExpT == <<
  1000000, 882497, 778801, 687289, 606531, 535261, 472367, 416862, 367879, 324652, 286505, 252840,
  223130, 196912, 173774, 153355, 135335, 119433, 105399, 93014, 82085, 72440, 63928, 56416, 49787,
  43937, 38774, 34218, 30197, 26649, 23518, 20754, 18316, 16163, 14264, 12588, 11109, 9804, 8652,
  7635, 6738, 5946, 5248, 4631, 4087, 3607, 3183, 2809, 2479, 2187, 1930, 1704, 1503, 1327, 1171,
  1033, 912, 805, 710, 627, 553, 488, 431, 380, 335, 296, 261, 231, 203, 180, 158, 140, 123, 109,
  96, 85, 75, 66, 58, 51, 45, 40, 35, 31, 28, 24, 21, 19, 17, 15, 13, 11, 10, 9, 8, 7, 6, 5, 5, 4,
  4, 3, 3, 3, 2, 2, 2, 2, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0,
  0, 0, 0, 0>>
=============================================================================
