------------------------------ MODULE LogTable ------------------------------
(* Natural logarithms of 1..400, in millionths, rounded (generated by         *)
(* tools/gen_logtable.py; checked against its functional equation by TLC).   *)
EXTENDS Integers, Sequences
LnTab == <<
  0, 693147, 1098612, 1386294, 1609438, 1791759, 1945910, 2079442, 2197225, 2302585,
  2397895, 2484907, 2564949, 2639057, 2708050, 2772589, 2833213, 2890372, 2944439, 2995732,
  3044522, 3091042, 3135494, 3178054, 3218876, 3258097, 3295837, 3332205, 3367296, 3401197,
  3433987, 3465736, 3496508, 3526361, 3555348, 3583519, 3610918, 3637586, 3663562, 3688879,
  3713572, 3737670, 3761200, 3784190, 3806662, 3828641, 3850148, 3871201, 3891820, 3912023,
  3931826, 3951244, 3970292, 3988984, 4007333, 4025352, 4043051, 4060443, 4077537, 4094345,
  4110874, 4127134, 4143135, 4158883, 4174387, 4189655, 4204693, 4219508, 4234107, 4248495,
  4262680, 4276666, 4290459, 4304065, 4317488, 4330733, 4343805, 4356709, 4369448, 4382027,
  4394449, 4406719, 4418841, 4430817, 4442651, 4454347, 4465908, 4477337, 4488636, 4499810,
  4510860, 4521789, 4532599, 4543295, 4553877, 4564348, 4574711, 4584967, 4595120, 4605170,
  4615121, 4624973, 4634729, 4644391, 4653960, 4663439, 4672829, 4682131, 4691348, 4700480,
  4709530, 4718499, 4727388, 4736198, 4744932, 4753590, 4762174, 4770685, 4779123, 4787492,
  4795791, 4804021, 4812184, 4820282, 4828314, 4836282, 4844187, 4852030, 4859812, 4867534,
  4875197, 4882802, 4890349, 4897840, 4905275, 4912655, 4919981, 4927254, 4934474, 4941642,
  4948760, 4955827, 4962845, 4969813, 4976734, 4983607, 4990433, 4997212, 5003946, 5010635,
  5017280, 5023881, 5030438, 5036953, 5043425, 5049856, 5056246, 5062595, 5068904, 5075174,
  5081404, 5087596, 5093750, 5099866, 5105945, 5111988, 5117994, 5123964, 5129899, 5135798,
  5141664, 5147494, 5153292, 5159055, 5164786, 5170484, 5176150, 5181784, 5187386, 5192957,
  5198497, 5204007, 5209486, 5214936, 5220356, 5225747, 5231109, 5236442, 5241747, 5247024,
  5252273, 5257495, 5262690, 5267858, 5273000, 5278115, 5283204, 5288267, 5293305, 5298317,
  5303305, 5308268, 5313206, 5318120, 5323010, 5327876, 5332719, 5337538, 5342334, 5347108,
  5351858, 5356586, 5361292, 5365976, 5370638, 5375278, 5379897, 5384495, 5389072, 5393628,
  5398163, 5402677, 5407172, 5411646, 5416100, 5420535, 5424950, 5429346, 5433722, 5438079,
  5442418, 5446737, 5451038, 5455321, 5459586, 5463832, 5468060, 5472271, 5476464, 5480639,
  5484797, 5488938, 5493061, 5497168, 5501258, 5505332, 5509388, 5513429, 5517453, 5521461,
  5525453, 5529429, 5533389, 5537334, 5541264, 5545177, 5549076, 5552960, 5556828, 5560682,
  5564520, 5568345, 5572154, 5575949, 5579730, 5583496, 5587249, 5590987, 5594711, 5598422,
  5602119, 5605802, 5609472, 5613128, 5616771, 5620401, 5624018, 5627621, 5631212, 5634790,
  5638355, 5641907, 5645447, 5648974, 5652489, 5655992, 5659482, 5662960, 5666427, 5669881,
  5673323, 5676754, 5680173, 5683580, 5686975, 5690359, 5693732, 5697093, 5700444, 5703782,
  5707110, 5710427, 5713733, 5717028, 5720312, 5723585, 5726848, 5730100, 5733341, 5736572,
  5739793, 5743003, 5746203, 5749393, 5752573, 5755742, 5758902, 5762051, 5765191, 5768321,
  5771441, 5774552, 5777652, 5780744, 5783825, 5786897, 5789960, 5793014, 5796058, 5799093,
  5802118, 5805135, 5808142, 5811141, 5814131, 5817111, 5820083, 5823046, 5826000, 5828946,
  5831882, 5834811, 5837730, 5840642, 5843544, 5846439, 5849325, 5852202, 5855072, 5857933,
  5860786, 5863631, 5866468, 5869297, 5872118, 5874931, 5877736, 5880533, 5883322, 5886104,
  5888878, 5891644, 5894403, 5897154, 5899897, 5902633, 5905362, 5908083, 5910797, 5913503,
  5916202, 5918894, 5921578, 5924256, 5926926, 5929589, 5932245, 5934894, 5937536, 5940171,
  5942799, 5945421, 5948035, 5950643, 5953243, 5955837, 5958425, 5961005, 5963579, 5966147,
  5968708, 5971262, 5973810, 5976351, 5978886, 5981414, 5983936, 5986452, 5988961, 5991465
>>
Ln6(n) == LnTab[n]
LnMax == 400
=============================================================================
