-------------------------------- MODULE Trig --------------------------------
(* Fixed-point cosine (turns in units of 1/960, values times 20000) and      *)
(* fixed-point powers 2^(-j/16).  MC_Trig checks both tables against the     *)
(* identities that determine them.                                           *)
EXTENDS Integers, Sequences
TrigN == 960
TrigS == 20000
CosTable == <<
    20000, 20000, 19998, 19996, 19993, 19989, 19985, 19979, 19973, 19965,
    19957, 19948, 19938, 19928, 19916, 19904, 19890, 19876, 19861, 19846,
    19829, 19811, 19793, 19774, 19754, 19733, 19711, 19689, 19665, 19641,
    19616, 19590, 19563, 19535, 19507, 19478, 19447, 19416, 19385, 19352,
    19319, 19284, 19249, 19213, 19176, 19139, 19100, 19061, 19021, 18980,
    18939, 18896, 18853, 18809, 18764, 18718, 18672, 18624, 18576, 18527,
    18478, 18427, 18376, 18324, 18271, 18217, 18163, 18108, 18052, 17995,
    17937, 17879, 17820, 17760, 17700, 17638, 17576, 17514, 17450, 17386,
    17321, 17255, 17188, 17121, 17053, 16984, 16915, 16844, 16773, 16702,
    16629, 16556, 16483, 16408, 16333, 16257, 16180, 16103, 16025, 15946,
    15867, 15787, 15706, 15625, 15543, 15460, 15377, 15293, 15208, 15123,
    15037, 14950, 14863, 14775, 14686, 14597, 14507, 14417, 14326, 14234,
    14142, 14049, 13956, 13862, 13767, 13672, 13576, 13480, 13383, 13285,
    13187, 13088, 12989, 12889, 12789, 12688, 12586, 12484, 12382, 12279,
    12175, 12071, 11966, 11861, 11756, 11650, 11543, 11436, 11328, 11220,
    11111, 11002, 10893, 10783, 10672, 10561, 10450, 10338, 10226, 10113,
    10000, 9886, 9772, 9658, 9543, 9428, 9312, 9196, 9080, 8963, 8846, 8728,
    8610, 8492, 8373, 8254, 8135, 8015, 7895, 7774, 7654, 7533, 7411, 7289,
    7167, 7045, 6922, 6799, 6676, 6553, 6429, 6305, 6180, 6056, 5931, 5806,
    5680, 5555, 5429, 5303, 5176, 5050, 4923, 4796, 4669, 4542, 4414, 4286,
    4158, 4030, 3902, 3773, 3645, 3516, 3387, 3258, 3129, 2999, 2870, 2740,
    2611, 2481, 2351, 2221, 2091, 1960, 1830, 1700, 1569, 1439, 1308, 1177,
    1047, 916, 785, 654, 524, 393, 262, 131, 0
>>
RECURSIVE CosT(_)
CosT(t0) == LET t == t0 % 960 IN
    IF t <= 240 THEN CosTable[t + 1] ELSE IF t <= 480 THEN -CosTable[481 - t]
    ELSE CosT(960 - t)
SinT(t) == CosT(t - 240)
HalfPow == <<20000, 19152, 18340, 17563, 16818, 16105, 15422, 14768, 14142, 13543, 12968, 12419, 11892, 11388, 10905, 10443>>
=============================================================================
