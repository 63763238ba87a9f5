"""The CIE 1931 matching curves (1 nm, from 360 nm) and Smits' basis spectra, as published with pbrt."""
CIE_X = [
    0.0001299, 0.000145847, 0.0001638021, 0.0001840037, 0.0002066902, 0.0002321, 0.000260728, 0.000293075,
    0.000329388, 0.000369914, 0.0004149, 0.0004641587, 0.000518986, 0.000581854, 0.0006552347, 0.0007416,
    0.0008450296, 0.0009645268, 0.001094949, 0.001231154, 0.001368, 0.00150205, 0.001642328, 0.001802382,
    0.001995757, 0.002236, 0.002535385, 0.002892603, 0.003300829, 0.003753236, 0.004243, 0.004762389,
    0.005330048, 0.005978712, 0.006741117, 0.00765, 0.008751373, 0.01002888, 0.0114217, 0.01286901,
    0.01431, 0.01570443, 0.01714744, 0.01878122, 0.02074801, 0.02319, 0.02620736, 0.02978248,
    0.03388092, 0.03846824, 0.04351, 0.0489956, 0.0550226, 0.0617188, 0.069212, 0.07763,
    0.08695811, 0.09717672, 0.1084063, 0.1207672, 0.13438, 0.1493582, 0.1653957, 0.1819831,
    0.198611, 0.21477, 0.2301868, 0.2448797, 0.2587773, 0.2718079, 0.2839, 0.2949438,
    0.3048965, 0.3137873, 0.3216454, 0.3285, 0.3343513, 0.3392101, 0.3431213, 0.3461296,
    0.34828, 0.3495999, 0.3501474, 0.350013, 0.349287, 0.34806, 0.3463733, 0.3442624,
    0.3418088, 0.3390941, 0.3362, 0.3331977, 0.3300411, 0.3266357, 0.3228868, 0.3187,
    0.3140251, 0.308884, 0.3032904, 0.2972579, 0.2908, 0.2839701, 0.2767214, 0.2689178,
    0.2604227, 0.2511, 0.2408475, 0.2298512, 0.2184072, 0.2068115, 0.19536, 0.1842136,
    0.1733273, 0.1626881, 0.1522833, 0.1421, 0.1321786, 0.1225696, 0.1132752, 0.1042979,
    0.09564, 0.08729955, 0.07930804, 0.07171776, 0.06458099, 0.05795001, 0.05186211, 0.04628152,
    0.04115088, 0.03641283, 0.03201, 0.0279172, 0.0241444, 0.020687, 0.0175404, 0.0147,
    0.01216179, 0.00991996, 0.00796724, 0.006296346, 0.0049, 0.003777173, 0.00294532, 0.00242488,
    0.002236293, 0.0024, 0.00292552, 0.00383656, 0.00517484, 0.00698208, 0.0093, 0.01214949,
    0.01553588, 0.01947752, 0.02399277, 0.0291, 0.03481485, 0.04112016, 0.04798504, 0.05537861,
    0.06327, 0.07163501, 0.08046224, 0.08973996, 0.09945645, 0.1096, 0.1201674, 0.1311145,
    0.1423679, 0.1538542, 0.1655, 0.1772571, 0.18914, 0.2011694, 0.2133658, 0.2257499,
    0.2383209, 0.2510668, 0.2639922, 0.2771017, 0.2904, 0.3038912, 0.3175726, 0.3314384,
    0.3454828, 0.3597, 0.3740839, 0.3886396, 0.4033784, 0.4183115, 0.4334499, 0.4487953,
    0.464336, 0.480064, 0.4959713, 0.5120501, 0.5282959, 0.5446916, 0.5612094, 0.5778215,
    0.5945, 0.6112209, 0.6279758, 0.6447602, 0.6615697, 0.6784, 0.6952392, 0.7120586,
    0.7288284, 0.7455188, 0.7621, 0.7785432, 0.7948256, 0.8109264, 0.8268248, 0.8425,
    0.8579325, 0.8730816, 0.8878944, 0.9023181, 0.9163, 0.9297995, 0.9427984, 0.9552776,
    0.9672179, 0.9786, 0.9893856, 0.9995488, 1.0090892, 1.0180064, 1.0263, 1.0339827,
    1.040986, 1.047188, 1.0524667, 1.0567, 1.0597944, 1.0617992, 1.0628068, 1.0629096,
    1.0622, 1.0607352, 1.0584436, 1.0552244, 1.0509768, 1.0456, 1.0390369, 1.0313608,
    1.0226662, 1.0130477, 1.0026, 0.9913675, 0.9793314, 0.9664916, 0.9528479, 0.9384,
    0.923194, 0.907244, 0.890502, 0.87292, 0.8544499, 0.835084, 0.814946, 0.794186,
    0.772954, 0.7514, 0.7295836, 0.7075888, 0.6856022, 0.6638104, 0.6424, 0.6215149,
    0.6011138, 0.5811052, 0.5613977, 0.5419, 0.5225995, 0.5035464, 0.4847436, 0.4661939,
    0.4479, 0.4298613, 0.412098, 0.394644, 0.3775333, 0.3608, 0.3444563, 0.3285168,
    0.3130192, 0.2980011, 0.2835, 0.2695448, 0.2561184, 0.2431896, 0.2307272, 0.2187,
    0.2070971, 0.1959232, 0.1851708, 0.1748323, 0.1649, 0.1553667, 0.14623, 0.13749,
    0.1291467, 0.1212, 0.1136397, 0.106465, 0.09969044, 0.09333061, 0.0874, 0.08190096,
    0.07680428, 0.07207712, 0.06768664, 0.0636, 0.05980685, 0.05628216, 0.05297104, 0.04981861,
    0.04677, 0.04378405, 0.04087536, 0.03807264, 0.03540461, 0.0329, 0.03056419, 0.02838056,
    0.02634484, 0.02445275, 0.0227, 0.02108429, 0.01959988, 0.01823732, 0.01698717, 0.01584,
    0.01479064, 0.01383132, 0.01294868, 0.0121292, 0.01135916, 0.01062935, 0.009938846, 0.009288422,
    0.008678854, 0.008110916, 0.007582388, 0.007088746, 0.006627313, 0.006195408, 0.005790346, 0.005409826,
    0.005052583, 0.004717512, 0.004403507, 0.004109457, 0.003833913, 0.003575748, 0.003334342, 0.003109075,
    0.002899327, 0.002704348, 0.00252302, 0.002354168, 0.002196616, 0.00204919, 0.00191096, 0.001781438,
    0.00166011, 0.001546459, 0.001439971, 0.001340042, 0.001246275, 0.001158471, 0.00107643, 0.0009999493,
    0.0009287358, 0.0008624332, 0.0008007503, 0.000743396, 0.0006900786, 0.0006405156, 0.0005945021, 0.0005518646,
    0.000512429, 0.0004760213, 0.0004424536, 0.0004115117, 0.0003829814, 0.0003566491, 0.0003323011, 0.0003097586,
    0.0002888871, 0.0002695394, 0.0002515682, 0.0002348261, 0.000219171, 0.0002045258, 0.0001908405, 0.0001780654,
    0.0001661505, 0.0001550236, 0.0001446219, 0.0001349098, 0.000125852, 0.000117413, 0.0001095515, 0.0001022245,
    9.539445e-05, 8.90239e-05, 8.307527e-05, 7.751269e-05, 7.231304e-05, 6.745778e-05, 6.292844e-05, 5.870652e-05,
    5.477028e-05, 5.109918e-05, 4.767654e-05, 4.448567e-05, 4.150994e-05, 3.873324e-05, 3.614203e-05, 3.372352e-05,
    3.146487e-05, 2.935326e-05, 2.737573e-05, 2.552433e-05, 2.379376e-05, 2.21787e-05, 2.067383e-05, 1.927226e-05,
    1.79664e-05, 1.674991e-05, 1.561648e-05, 1.455977e-05, 1.357387e-05, 1.265436e-05, 1.179723e-05, 1.099844e-05,
    1.025398e-05, 9.559646e-06, 8.912044e-06, 8.308358e-06, 7.745769e-06, 7.221456e-06, 6.732475e-06, 6.276423e-06,
    5.851304e-06, 5.455118e-06, 5.085868e-06, 4.741466e-06, 4.420236e-06, 4.120783e-06, 3.841716e-06, 3.581652e-06,
    3.339127e-06, 3.112949e-06, 2.902121e-06, 2.705645e-06, 2.522525e-06, 2.351726e-06, 2.192415e-06, 2.043902e-06,
    1.905497e-06, 1.776509e-06, 1.656215e-06, 1.544022e-06, 1.43944e-06, 1.341977e-06, 1.251141e-06,
]
CIE_Y = [
    3.917e-06, 4.393581e-06, 4.929604e-06, 5.532136e-06, 6.208245e-06, 6.965e-06, 7.813219e-06, 8.767336e-06,
    9.839844e-06, 1.104323e-05, 1.239e-05, 1.388641e-05, 1.555728e-05, 1.744296e-05, 1.958375e-05, 2.202e-05,
    2.483965e-05, 2.804126e-05, 3.153104e-05, 3.521521e-05, 3.9e-05, 4.28264e-05, 4.69146e-05, 5.15896e-05,
    5.71764e-05, 6.4e-05, 7.234421e-05, 8.221224e-05, 9.350816e-05, 0.0001061361, 0.00012, 0.000134984,
    0.000151492, 0.000170208, 0.000191816, 0.000217, 0.0002469067, 0.00028124, 0.00031852, 0.0003572667,
    0.000396, 0.0004337147, 0.000473024, 0.000517876, 0.0005722187, 0.00064, 0.00072456, 0.0008255,
    0.00094116, 0.00106988, 0.00121, 0.001362091, 0.001530752, 0.001720368, 0.001935323, 0.00218,
    0.0024548, 0.002764, 0.0031178, 0.0035264, 0.004, 0.00454624, 0.00515932, 0.00582928,
    0.00654616, 0.0073, 0.008086507, 0.00890872, 0.00976768, 0.01066443, 0.0116, 0.01257317,
    0.01358272, 0.01462968, 0.01571509, 0.01684, 0.01800736, 0.01921448, 0.02045392, 0.02171824,
    0.023, 0.02429461, 0.02561024, 0.02695857, 0.02835125, 0.0298, 0.03131083, 0.03288368,
    0.03452112, 0.03622571, 0.038, 0.03984667, 0.041768, 0.043766, 0.04584267, 0.048,
    0.05024368, 0.05257304, 0.05498056, 0.05745872, 0.06, 0.06260197, 0.06527752, 0.06804208,
    0.07091109, 0.0739, 0.077016, 0.0802664, 0.0836668, 0.0872328, 0.09098, 0.09491755,
    0.09904584, 0.1033674, 0.1078846, 0.1126, 0.117532, 0.1226744, 0.1279928, 0.1334528,
    0.13902, 0.1446764, 0.1504693, 0.1564619, 0.1627177, 0.1693, 0.1762431, 0.1835581,
    0.1912735, 0.199418, 0.20802, 0.2171199, 0.2267345, 0.2368571, 0.2474812, 0.2586,
    0.2701849, 0.2822939, 0.2950505, 0.308578, 0.323, 0.3384021, 0.3546858, 0.3716986,
    0.3892875, 0.4073, 0.4256299, 0.4443096, 0.4633944, 0.4829395, 0.503, 0.5235693,
    0.544512, 0.56569, 0.5869653, 0.6082, 0.6293456, 0.6503068, 0.6708752, 0.6908424,
    0.71, 0.7281852, 0.7454636, 0.7619694, 0.7778368, 0.7932, 0.8081104, 0.8224962,
    0.8363068, 0.8494916, 0.862, 0.8738108, 0.8849624, 0.8954936, 0.9054432, 0.9148501,
    0.9237348, 0.9320924, 0.9399226, 0.9472252, 0.954, 0.9602561, 0.9660074, 0.9712606,
    0.9760225, 0.9803, 0.9840924, 0.9874812, 0.9903128, 0.9928116, 0.9949501, 0.9967108,
    0.9980983, 0.999112, 0.9997482, 1.0, 0.9998567, 0.9993046, 0.9983255, 0.9968987,
    0.995, 0.9926005, 0.9897426, 0.9864444, 0.9827241, 0.9786, 0.9740837, 0.9691712,
    0.9638568, 0.9581349, 0.952, 0.9454504, 0.9384992, 0.9311628, 0.9234576, 0.9154,
    0.9070064, 0.8982772, 0.8892048, 0.8797816, 0.87, 0.8598613, 0.849392, 0.838622,
    0.8275813, 0.8163, 0.8047947, 0.793082, 0.781192, 0.7691547, 0.757, 0.7447541,
    0.7324224, 0.7200036, 0.7074965, 0.6949, 0.6822192, 0.6694716, 0.6566744, 0.6438448,
    0.631, 0.6181555, 0.6053144, 0.5924756, 0.5796379, 0.5668, 0.5539611, 0.5411372,
    0.5283528, 0.5156323, 0.503, 0.4904688, 0.4780304, 0.4656776, 0.4534032, 0.4412,
    0.42908, 0.417036, 0.405032, 0.393032, 0.381, 0.3689184, 0.3568272, 0.3447768,
    0.3328176, 0.321, 0.3093381, 0.2978504, 0.2865936, 0.2756245, 0.265, 0.2547632,
    0.2448896, 0.2353344, 0.2260528, 0.217, 0.2081616, 0.1995488, 0.1911552, 0.1829744,
    0.175, 0.1672235, 0.1596464, 0.1522776, 0.1451259, 0.1382, 0.1315003, 0.1250248,
    0.1187792, 0.1127691, 0.107, 0.1014762, 0.09618864, 0.09112296, 0.08626485, 0.0816,
    0.07712064, 0.07282552, 0.06871008, 0.06476976, 0.061, 0.05739621, 0.05395504, 0.05067376,
    0.04754965, 0.04458, 0.04175872, 0.03908496, 0.03656384, 0.03420048, 0.032, 0.02996261,
    0.02807664, 0.02632936, 0.02470805, 0.0232, 0.02180077, 0.02050112, 0.01928108, 0.01812069,
    0.017, 0.01590379, 0.01483718, 0.01381068, 0.01283478, 0.01192, 0.01106831, 0.01027339,
    0.009533311, 0.008846157, 0.00821, 0.007623781, 0.007085424, 0.006591476, 0.006138485, 0.005723,
    0.005343059, 0.004995796, 0.004676404, 0.004380075, 0.004102, 0.003838453, 0.003589099, 0.003354219,
    0.003134093, 0.002929, 0.002738139, 0.002559876, 0.002393244, 0.002237275, 0.002091, 0.001953587,
    0.00182458, 0.00170358, 0.001590187, 0.001484, 0.001384496, 0.001291268, 0.001204092, 0.001122744,
    0.001047, 0.0009765896, 0.0009111088, 0.0008501332, 0.0007932384, 0.00074, 0.0006900827, 0.00064331,
    0.000599496, 0.0005584547, 0.00052, 0.0004839136, 0.0004500528, 0.0004183452, 0.0003887184, 0.0003611,
    0.0003353835, 0.0003114404, 0.0002891656, 0.0002684539, 0.0002492, 0.0002313019, 0.0002146856, 0.0001992884,
    0.0001850475, 0.0001719, 0.0001597781, 0.0001486044, 0.0001383016, 0.0001287925, 0.00012, 0.0001118595,
    0.0001043224, 9.73356e-05, 9.084587e-05, 8.48e-05, 7.914667e-05, 7.3858e-05, 6.8916e-05, 6.430267e-05,
    6e-05, 5.598187e-05, 5.22256e-05, 4.87184e-05, 4.544747e-05, 4.24e-05, 3.956104e-05, 3.691512e-05,
    3.444868e-05, 3.214816e-05, 3e-05, 2.799125e-05, 2.611356e-05, 2.436024e-05, 2.272461e-05, 2.12e-05,
    1.977855e-05, 1.845285e-05, 1.721687e-05, 1.606459e-05, 1.499e-05, 1.398728e-05, 1.305155e-05, 1.217818e-05,
    1.136254e-05, 1.06e-05, 9.885877e-06, 9.217304e-06, 8.592362e-06, 8.009133e-06, 7.4657e-06, 6.959567e-06,
    6.487995e-06, 6.048699e-06, 5.639396e-06, 5.2578e-06, 4.901771e-06, 4.56972e-06, 4.260194e-06, 3.971739e-06,
    3.7029e-06, 3.452163e-06, 3.218302e-06, 3.0003e-06, 2.797139e-06, 2.6078e-06, 2.43122e-06, 2.266531e-06,
    2.113013e-06, 1.969943e-06, 1.8366e-06, 1.71223e-06, 1.596228e-06, 1.48809e-06, 1.387314e-06, 1.2934e-06,
    1.20582e-06, 1.124143e-06, 1.048009e-06, 9.770578e-07, 9.1093e-07, 8.492513e-07, 7.917212e-07, 7.380904e-07,
    6.881098e-07, 6.4153e-07, 5.980895e-07, 5.575746e-07, 5.19808e-07, 4.846123e-07, 4.5181e-07,
]
CIE_Z = [
    0.0006061, 0.0006808792, 0.0007651456, 0.0008600124, 0.0009665928, 0.001086, 0.001220586, 0.001372729,
    0.001543579, 0.001734286, 0.001946, 0.002177777, 0.002435809, 0.002731953, 0.003078064, 0.003486,
    0.003975227, 0.00454088, 0.00515832, 0.005802907, 0.006450001, 0.007083216, 0.007745488, 0.008501152,
    0.009414544, 0.01054999, 0.0119658, 0.01365587, 0.01558805, 0.01773015, 0.02005001, 0.02251136,
    0.02520288, 0.02827972, 0.03189704, 0.03621, 0.04143771, 0.04750372, 0.05411988, 0.06099803,
    0.06785001, 0.07448632, 0.08136156, 0.08915364, 0.09854048, 0.1102, 0.1246133, 0.1417017,
    0.1613035, 0.1832568, 0.2074, 0.2336921, 0.2626114, 0.2947746, 0.3307985, 0.3713,
    0.4162091, 0.4654642, 0.5196948, 0.5795303, 0.6456, 0.7184838, 0.7967133, 0.8778459,
    0.959439, 1.0390501, 1.1153673, 1.1884971, 1.2581233, 1.3239296, 1.3856, 1.4426352,
    1.4948035, 1.5421903, 1.5848807, 1.62296, 1.6564048, 1.6852959, 1.7098745, 1.7303821,
    1.74706, 1.7600446, 1.7696233, 1.7762637, 1.7804334, 1.7826, 1.7829682, 1.7816998,
    1.7791982, 1.7758671, 1.77211, 1.7682589, 1.764039, 1.7589438, 1.7524663, 1.7441,
    1.7335595, 1.7208581, 1.7059369, 1.6887372, 1.6692, 1.6475287, 1.6234127, 1.5960223,
    1.564528, 1.5281, 1.4861114, 1.4395215, 1.3898799, 1.3387362, 1.28764, 1.2374223,
    1.1878243, 1.1387611, 1.090148, 1.0419, 0.9941976, 0.9473473, 0.9014531, 0.8566193,
    0.8129501, 0.7705173, 0.7294448, 0.6899136, 0.6521049, 0.6162, 0.5823286, 0.5504162,
    0.5203376, 0.4919673, 0.46518, 0.4399246, 0.4161836, 0.3938822, 0.3729459, 0.3533,
    0.3348578, 0.3175521, 0.3013375, 0.2861686, 0.272, 0.2588171, 0.2464838, 0.2347718,
    0.2234533, 0.2123, 0.2011692, 0.1901196, 0.1792254, 0.1685608, 0.1582, 0.1481383,
    0.1383758, 0.1289942, 0.1200751, 0.1117, 0.1039048, 0.09666748, 0.08998272, 0.08384531,
    0.07824999, 0.07320899, 0.06867816, 0.06456784, 0.06078835, 0.05725001, 0.05390435, 0.05074664,
    0.04775276, 0.04489859, 0.04216, 0.03950728, 0.03693564, 0.03445836, 0.03208872, 0.02984,
    0.02771181, 0.02569444, 0.02378716, 0.02198925, 0.0203, 0.01871805, 0.01724036, 0.01586364,
    0.01458461, 0.0134, 0.01230723, 0.01130188, 0.01037792, 0.009529306, 0.008749999, 0.0080352,
    0.0073816, 0.0067854, 0.0062428, 0.005749999, 0.0053036, 0.0048998, 0.0045342, 0.0042024,
    0.0039, 0.0036232, 0.0033706, 0.0031414, 0.0029348, 0.002749999, 0.0025852, 0.0024386,
    0.0023094, 0.0021968, 0.0021, 0.002017733, 0.0019482, 0.0018898, 0.001840933, 0.0018,
    0.001766267, 0.0017378, 0.0017112, 0.001683067, 0.001650001, 0.001610133, 0.0015644, 0.0015136,
    0.001458533, 0.0014, 0.001336667, 0.00127, 0.001205, 0.001146667, 0.0011, 0.0010688,
    0.0010494, 0.0010356, 0.0010212, 0.001, 0.00096864, 0.00092992, 0.00088688, 0.00084256,
    0.0008, 0.00076096, 0.00072368, 0.00068592, 0.00064544, 0.0006, 0.0005478667, 0.0004916,
    0.0004354, 0.0003834667, 0.00034, 0.0003072533, 0.00028316, 0.00026544, 0.0002518133, 0.00024,
    0.0002295467, 0.00022064, 0.00021196, 0.0002021867, 0.00019, 0.0001742133, 0.00015564, 0.00013596,
    0.0001168533, 0.0001, 8.613333e-05, 7.46e-05, 6.5e-05, 5.693333e-05, 4.999999e-05, 4.416e-05,
    3.948e-05, 3.572e-05, 3.264e-05, 3e-05, 2.765333e-05, 2.556e-05, 2.364e-05, 2.181333e-05,
    2e-05, 1.813333e-05, 1.62e-05, 1.42e-05, 1.213333e-05, 1e-05, 7.733333e-06, 5.4e-06,
    3.2e-06, 1.333333e-06, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
    0.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.0,
]
RGB2SpectLambda = [
    380.0, 390.967743, 401.935486, 412.903229, 423.870972, 434.838715, 445.806458, 456.7742,
    467.741943, 478.709686, 489.677429, 500.645172, 511.612915, 522.580627, 533.54834, 544.516052,
    555.483765, 566.451477, 577.419189, 588.386902, 599.354614, 610.322327, 621.290039, 632.257751,
    643.225464, 654.193176, 665.160889, 676.128601, 687.096313, 698.064026, 709.031738, 720.0,
]
RGBIllum2SpectBlue = [
    1.0570490759328752, 1.05384669128513, 1.055049425814067, 1.0530407754701832, 1.0579930596460185, 1.057843949481237, 1.0583132387180239, 1.0579712943137616,
    1.0561884233578465, 1.057139928542649, 1.0425795187752152, 0.326030843740561, -0.0019255628442412243, -0.0012959221137046478, -0.0014357356276938696, -0.0012963697250337886,
    -0.00192270811623739, 0.0012621152526221778, -0.0016095249003578276, -0.0013029983817879568, -0.0017666600873954916, -0.001232528114028005, 0.010316809673254932, 0.03128451264835436,
    0.08877387988174648, 0.1387362174023654, 0.15535067531939065, 0.1487847717823703, 0.16624255403475907, 0.16997613960634927, 0.15769743995852967, 0.19069090525482305,
]
RGBIllum2SpectCyan = [
    1.1334479663682135, 1.1266762330194116, 1.1346827504710164, 1.1357395805744794, 1.1356371830149636, 1.1361152989346193, 1.1362179057706772, 1.1364819652587022,
    1.1355107110714324, 1.1364060941199556, 1.1360363621722465, 1.1360122641141395, 1.135426688246703, 1.1363099407179136, 1.1355450412632506, 1.1353732327376378,
    1.1349496420726002, 1.1111113947168556, 0.9059874042972714, 0.6116078078746533, 0.29539752170999634, 0.0959542006711501, -0.011650792030826267, -0.012144633073395025,
    -0.011148167569748318, -0.011997606668458151, -0.005050685547539485, -0.007998274581954215, -0.009472281770823642, -0.0055329541006658815, -0.004542891402827449, -0.012541015360921132,
]
RGBIllum2SpectGreen = [
    0.02516838875551463, 0.03942743816942372, 0.006205957159642579, 0.007112085980742955, 0.0002176004464913943, 7.327183998429021e-12, -0.0216230662171817, 0.015670209409407512,
    0.002801960318863622, 0.32494773799897647, 1.0164917292316602, 1.0329476657890369, 1.032158696299155, 1.0358667411948619, 1.015123547683494, 1.0338076690093119,
    1.0371372378155013, 1.0361377027692558, 1.022982243255721, 0.9691032733565232, -0.005178592389987857, 0.001113126197106143, 0.006667550303301177, 0.0007402431568600196,
    0.021591567633473925, 0.005148162005621723, 0.0014561928645728216, 0.00016414511045291513, -0.006463076496845329, 0.010250854718507939, 0.042387394733956134, 0.02125271692686162,
]
RGBIllum2SpectMagenta = [
    1.0371892935878366, 1.0587542891035364, 1.0767271213688903, 1.0762706844110288, 1.0795289105258212, 1.0743644742950074, 1.0727028691194342, 1.0732447452056488,
    1.0823760816041414, 1.0840545681409282, 0.9560756752630666, 0.5519789685506467, 0.08419109488724758, 8.7940070557041e-05, -0.002308640833507125, -0.0011248136628651192,
    -7.729761275498959e-11, -0.00027270769006770834, 0.014466473094035592, 0.2588311602716948, 0.5290799982756673, 0.9096662409710516, 1.0690571327307956, 1.0887326064796272,
    1.0637622289511852, 1.020181291809426, 1.0262196688979945, 1.078308556061319, 0.9833384962321887, 1.070724634280262, 1.0634247770423768, 1.0150875475729566,
]
RGBIllum2SpectRed = [
    0.05471118715729184, 0.0556090664983034, 0.060755873790918236, 0.05623294861596237, 0.04616994053570868, 0.038012808167818095, 0.02442422575667034, 0.003898358058159218,
    -0.0005608225217273444, 0.0009649387125519465, 0.0003734119805151037, -0.000433673890931352, -9.353396225689203e-05, -0.00012354967412842033, -0.0001452454808168746, -0.0002004769191554373,
    -0.0004993858769469367, 0.027255083540032476, 0.1606740590629706, 0.35069788873150953, 0.5735746553841896, 0.7639209189071895, 0.8914446674038152, 0.9639460990957489,
    0.9887946427601628, 0.998974499662272, 0.9860514040356416, 0.995325028053452, 0.9743347837730537, 0.9913436461687141, 0.9886628777217475, 0.9971385608973553,
]
RGBIllum2SpectWhite = [
    1.1565232050369776, 1.156722500011914, 1.1566203150243823, 1.1555782088080084, 1.15621755092157, 1.1567674012207332, 1.156802319480863, 1.156767744548552,
    1.156356318295283, 1.1567054702510189, 1.1565134139372772, 1.1564336176499312, 1.1568023181530034, 1.1473147688514642, 1.1339317140561065, 1.1293876490671435,
    1.1290515328639648, 1.0504864823782283, 1.0459696042230884, 0.9936668716859569, 0.9560166926539394, 0.924674820335118, 0.9149994470205176, 0.8993946765845346,
    0.8954252075133111, 0.8887056669381475, 0.8822284381422811, 0.8799831137382668, 0.8763524461224458, 0.8800036833170911, 0.8806566542844112, 0.883047064602769,
]
RGBIllum2SpectYellow = [
    0.002775695896581197, 0.003967382099064661, -0.0001460693678860675, 0.00036198394557748065, -0.00025819258699309733, -5.0133191628082274e-05, -0.00024437242866157116, -7.806141994803895e-05,
    0.04969030120754092, 0.48515973574763166, 1.029572585436059, 1.0333210878457741, 1.0368102644026933, 1.0364884018886333, 1.0365427939411784, 1.036859540285454,
    1.0365645405660555, 1.0363938240707142, 1.0367205578770746, 1.036523932944605, 1.0361531226427443, 1.0348785007827348, 1.0042729660717318, 0.8421848643235428,
    0.7375939489480157, 0.6585315450029464, 0.6053168244406628, 0.5954979413242074, 0.5941926127844314, 0.5651768232663427, 0.5606118601496856, 0.5822861038101872,
]
RGBRefl2SpectBlue = [
    0.9920977146972068, 0.9887642605936913, 0.9953904074450564, 0.9952931735300822, 0.9918144741163395, 1.0002584039673432, 0.9996847843734251, 0.9998812076665717,
    0.9850401214637043, 0.7902984905303128, 0.5608219861746397, 0.3313345851399653, 0.13692410840839175, 0.01891490655966415, -5.112977093255089e-06, -0.00042395493167891873,
    -0.00041934593101534273, 0.0017473028136486615, 0.0037999160177631316, -0.0005510147490658864, -4.3716662898480967e-05, 0.00758745017487328, 0.02579565078055402, 0.03816837653250055,
    0.04948958640803083, 0.049595992290102905, 0.04981481950581225, 0.03984091106497802, 0.03050102493723387, 0.02124305476524108, 0.00695965321043564, 0.0041733649330980525,
]
RGBRefl2SpectCyan = [
    1.041462802142675, 1.0328661533771188, 1.0126146228964314, 1.035046052483621, 1.0078661447098567, 1.042228038508128, 1.0442596738499825, 1.0535238290294409,
    1.018077622693812, 1.0442729908727713, 1.052936254192075, 1.0537034271160244, 1.053390186921597, 1.0537782700979574, 1.0527093770467102, 1.0530449040446797,
    1.0550554640191208, 1.055367361072482, 1.0454306634683976, 0.623489506392308, 0.18038071613188977, -0.007630375920198454, -0.00015217847035781367, -0.007510225734725831,
    -0.002170863932849147, 0.0006591946660236964, 0.01227881531853978, -0.004466977563720803, 0.017119799082865147, 0.00492110897597598, 0.0058762925143334985, 0.02525939941555008,
]
RGBRefl2SpectGreen = [
    0.0026494153587602255, -0.005017501342973224, -0.012547236272489583, -0.009455496430838867, -0.012526086181600525, -0.007917069776043777, -0.007995573520417569, -0.009355943344446907,
    0.0654686119829993, 0.3957287551763414, 0.7524402229988666, 0.9637647869021856, 0.9985443385516233, 0.9999297702528792, 0.9993908675114045, 0.999943722670714,
    0.9993912181341867, 0.9991123731042448, 0.9601958487827158, 0.6318627933843244, 0.2579740102876347, 0.009401488852733564, -0.0030798345608649747, -0.0045230367033685034,
    -0.006893341038827404, -0.00903521955390154, -0.008591366716534021, -0.00836908691202894, -0.007868583233875431, -8.365757871108513e-06, 0.005430122544281718, -0.0027745589759259194,
]
RGBRefl2SpectMagenta = [
    0.9942213815123685, 0.9898693712297568, 0.9829365828611696, 0.9962786839985931, 1.0198955019000133, 1.016639550121036, 1.0220913178757398, 0.9965166604068244,
    1.0097766178917882, 1.0215422470827016, 0.6403195338779096, 0.0025012379477078184, 0.006533993955576994, 0.0028334080462675826, -5.1209675389074505e-11, -0.009059229164664638,
    0.00339367183233312, -0.0030638741121828406, 0.22203936168286292, 0.6314114002481197, 0.9748098557650096, 0.9720956233359057, 1.017377030286815, 0.9987519432273413,
    0.9470172573960224, 0.852586231543548, 0.9489779858166084, 0.9475187609652149, 0.9959894419105979, 0.8630135150380908, 0.8915098785352314, 0.8486649265284508,
]
RGBRefl2SpectRed = [
    0.1657560486708618, 0.11846442802747797, 0.12408293329637447, 0.11371272058349924, 0.07899243451889913, 0.03220560359310655, -0.010798365407877875, 0.018051975516730392,
    0.005340719659873053, 0.013654918729501336, -0.005956421354564284, -0.0018444365067353252, -0.010571884361529504, -0.002937552107800001, -0.010790476271835936, -0.008022430669750363,
    -0.002266916770249594, 0.007020024049470663, -0.00815284690002993, 0.6077286696925279, 0.988315608654324, 0.9939169104407882, 1.0039338994753197, 0.9923449986116712,
    0.9992653085885552, 1.008462155761727, 0.9835829682744122, 1.0085023660099048, 0.974511383265687, 0.9854326957005994, 0.9349576398096204, 0.987139077923194,
]
RGBRefl2SpectWhite = [
    1.0618958571272863, 1.0615019980348779, 1.0614335379927147, 1.0622711654692485, 1.0622036218416742, 1.0625059965187085, 1.0623938486985884, 1.0624706448043137,
    1.0625048144827762, 1.0624366131308856, 1.0620694238892607, 1.0613167586932164, 1.061033402937702, 1.0613868564828413, 1.0614215366116762, 1.0620336151299086,
    1.062549745480505, 1.0624317487992085, 1.062524914055448, 1.0624277664486914, 1.062474985409077, 1.0625538581025402, 1.0625326910104864, 1.0623922312225325,
    1.062365098035413, 1.0625256476715284, 1.0612277619533155, 1.0594262608698046, 1.0599810758292072, 1.0602547314449409, 1.0601263046243634, 1.0606565756823634,
]
RGBRefl2SpectYellow = [
    0.005574062292492087, -0.004798283163144679, -0.00525365642986138, -0.006457148004449971, -0.005969351465800701, -0.002183671603768672, 0.016781120601055327, 0.09609635542906264,
    0.21217357081986446, 0.3616913329068507, 0.5396101154323253, 0.7440881049217151, 0.9220957114839405, 1.0460304298411225, 1.0513824989063714, 1.0511991822135085,
    1.0510530911991052, 1.051739723036051, 1.0516043086790485, 1.051194403206146, 1.0511590325868068, 1.051661246548303, 1.0514038526836869, 1.0515941029228475,
    1.051146043696084, 1.0515123758830476, 1.0508871369510702, 1.050892370810238, 1.0477492815668303, 1.0493272144017338, 1.0435963333422726, 1.0392280772051465,
]
CIE_LAMBDA = [360. + i for i in range(471)]
CIE_Y_INTEGRAL = 106.856895
