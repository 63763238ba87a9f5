"""Published scattering tables (Jensen 2001, Narasimhan 2006), as in pbrt: name -> (reduced scattering, absorption) per mm."""
MEDIA = {
    'Apple': ([2.29, 2.39, 1.97], [0.003, 0.0034, 0.046]),
    'Chicken1': ([0.15, 0.21, 0.38], [0.015, 0.077, 0.19]),
    'Chicken2': ([0.19, 0.25, 0.32], [0.018, 0.088, 0.2]),
    'Cream': ([7.38, 5.47, 3.15], [0.0002, 0.0028, 0.0163]),
    'Ketchup': ([0.18, 0.07, 0.03], [0.061, 0.97, 1.45]),
    'Marble': ([2.19, 2.62, 3.0], [0.0021, 0.0041, 0.0071]),
    'Potato': ([0.68, 0.7, 0.55], [0.0024, 0.009, 0.12]),
    'Skimmilk': ([0.7, 1.22, 1.9], [0.0014, 0.0025, 0.0142]),
    'Skin1': ([0.74, 0.88, 1.01], [0.032, 0.17, 0.48]),
    'Skin2': ([1.09, 1.59, 1.79], [0.013, 0.07, 0.145]),
    'Spectralon': ([11.6, 20.4, 14.9], [0.0, 0.0, 0.0]),
    'Wholemilk': ([2.55, 3.21, 3.77], [0.0011, 0.0024, 0.014]),
    'Lowfat Milk': ([0.9126, 1.0748, 1.25], [0.0002, 0.0004, 0.0008]),
    'Reduced Milk': ([1.075, 1.2213, 1.3941], [0.0002, 0.0004, 0.001]),
    'Regular Milk': ([1.1874, 1.3296, 1.4602], [0.0001, 0.0003, 0.0013]),
    'Espresso': ([0.4376, 0.5115, 0.6048], [0.1669, 0.2287, 0.3078]),
    'Mint Mocha Coffee': ([0.19, 0.26, 0.35], [0.0984, 0.1519, 0.204]),
    'Lowfat Soy Milk': ([0.1419, 0.1625, 0.274], [0.0001, 0.0005, 0.0025]),
    'Regular Soy Milk': ([0.2434, 0.2719, 0.4597], [0.0001, 0.0005, 0.0034]),
    'Lowfat Chocolate Milk': ([0.4282, 0.5014, 0.5791], [0.0005, 0.0016, 0.0068]),
    'Regular Chocolate Milk': ([0.7359, 0.9172, 1.0688], [0.0007, 0.003, 0.01]),
    'Coke': ([0.7143, 1.1688, 1.7169], [0.6966, 1.148, 1.7169]),
    'Pepsi': ([0.6433, 0.999, 1.442], [0.6375, 0.9849, 1.442]),
    'Sprite': ([0.1299, 0.1283, 0.1395], [0.123, 0.1194, 0.1306]),
    'Gatorade': ([0.4009, 0.4185, 0.4324], [0.1617, 0.1258, 0.0579]),
    'Chardonnay': ([0.1577, 0.1748, 0.3512], [0.1547, 0.1701, 0.3443]),
    'White Zinfandel': ([0.1763, 0.237, 0.2913], [0.1732, 0.2322, 0.2847]),
    'Merlot': ([0.7639, 1.6429, 1.9196], [0.7586, 1.6429, 1.9196]),
    'Budweiser Beer': ([0.1486, 0.321, 0.736], [0.1449, 0.3141, 0.7286]),
    'Coors Light Beer': ([0.0295, 0.0663, 0.1521], [0.0268, 0.0608, 0.1521]),
    'Clorox': ([0.16, 0.25, 0.33], [0.0175, 0.0777, 0.1372]),
    'Apple Juice': ([0.1215, 0.2101, 0.4407], [0.1014, 0.1858, 0.4084]),
    'Cranberry Juice': ([0.27, 0.63, 0.83], [0.2572, 0.6145, 0.8104]),
    'Grape Juice': ([0.55, 1.25, 1.53], [0.5428, 1.25, 1.53]),
    'Ruby Grapefruit Juice': ([0.2513, 0.3517, 0.4305], [0.0896, 0.1911, 0.2636]),
    'White Grapefruit Juice': ([0.3609, 0.38, 0.5632], [0.0096, 0.0131, 0.0395]),
    'Shampoo': ([0.0288, 0.071, 0.0952], [0.0184, 0.0596, 0.0805]),
    'Strawberry Shampoo': ([0.0217, 0.0788, 0.1022], [0.0189, 0.0756, 0.0989]),
    'Head & Shoulders Shampoo': ([0.3674, 0.4527, 0.5211], [0.0883, 0.1637, 0.2125]),
    'Lemon Tea': ([0.34, 0.58, 0.88], [0.2602, 0.4902, 0.7727]),
    'Orange Juice Powder': ([0.3377, 0.5573, 1.0122], [0.1449, 0.3441, 0.7863]),
    'Pink Lemonade': ([0.24, 0.37, 0.45], [0.1165, 0.2366, 0.3195]),
    'Cappuccino Powder': ([0.2574, 0.3536, 0.484], [0.192, 0.2654, 0.3272]),
    'Salt Powder': ([0.76, 0.8685, 0.9363], [0.5115, 0.5863, 0.6147]),
    'Sugar Powder': ([0.0795, 0.1759, 0.278], [0.065, 0.1597, 0.2578]),
    'Suisse Mocha': ([0.5098, 0.6476, 0.7944], [0.1875, 0.2893, 0.3796]),
    'Pacific Ocean Surface Water': ([3.3645, 3.3158, 3.2428], [3.1845, 3.1324, 3.0147]),
}
