package props

// Float literals of many lengths and magnitudes. Go's own constants are exact
// and rounded once, to the nearest float64.
var moreFloats = []struct {
	text string
	val  float64
}{
	{"9.4", 9.4},
	{"8.0", 8.0},
	{"0.30", 0.30},
	{"21.5", 21.5},
	{"3.68", 3.68},
	{"0.930", 0.930},
	{"36.42", 36.42},
	{"212.9", 212.9},
	{"0.7220", 0.7220},
	{"33.22", 33.22},
	{"53.832", 53.832},
	{"0.64056", 0.64056},
	{"22415.4", 22415.4},
	{"909.514", 909.514},
	{"0.475277", 0.475277},
	{"20405.60", 20405.60},
	{"656907.0", 656907.0},
	{"0.2931375", 0.2931375},
	{"8584719.5", 8584719.5},
	{"406.13589", 406.13589},
	{"0.25481454", 0.25481454},
	{"2124720.19", 2124720.19},
	{"0.39547620", 0.39547620},
	{"0.753292612", 0.753292612},
	{"652064279.2", 652064279.2},
	{"7757447.621", 7757447.621},
	{"0.8275217488", 0.8275217488},
	{"85159.045847", 85159.045847},
	{"45290.784547", 45290.784547},
	{"0.85545652755", 0.85545652755},
	{"8282357416.29", 8282357416.29},
	{"86498403297.9", 86498403297.9},
	{"0.232073202152", 0.232073202152},
	{"738067569193.3", 738067569193.3},
	{"50.56461850894", 50.56461850894},
	{"0.4885945266985", 0.4885945266985},
	{"72.296973291506", 72.296973291506},
	{"599825966637.47", 599825966637.47},
	{"0.66299447460547", 0.66299447460547},
	{"427019734.026078", 427019734.026078},
	{"437037424479.789", 437037424479.789},
	{"0.102448594807559", 0.102448594807559},
	{"20048718.30669976", 20048718.30669976},
	{"634714069474227.8", 634714069474227.8},
	{"0.7582698013411056", 0.7582698013411056},
	{"167011.39124722926", 167011.39124722926},
	{"19308161409916.920", 19308161409916.920},
	{"0.15977550242984889", 0.15977550242984889},
	{"34.1834482357622051", 34.1834482357622051},
	{"11897367.7518086026", 11897367.7518086026},
	{"0.117329653459566254", 0.117329653459566254},
	{"658099326110.0233077", 658099326110.0233077},
	{"67496577.1322156728", 67496577.1322156728},
	{"0.1424307055500772154", 0.1424307055500772154},
	{"73203093.196542754172", 73203093.196542754172},
	{"23096407.076200889511", 23096407.076200889511},
	{"0.71703076004674003286", 0.71703076004674003286},
	{"4e-30", 4e-30},
	{"9315118e-30", 9315118e-30},
	{"3913907857696820e-30", 3913907857696820e-30},
	{"57381247146522817e-30", 57381247146522817e-30},
	{"4e-23", 4e-23},
	{"2693407e-23", 2693407e-23},
	{"4034511656804290e-23", 4034511656804290e-23},
	{"82006416825142247e-23", 82006416825142247e-23},
	{"6e-22", 6e-22},
	{"5018800e-22", 5018800e-22},
	{"2025649038625355e-22", 2025649038625355e-22},
	{"12992148922766155e-22", 12992148922766155e-22},
	{"8e-15", 8e-15},
	{"4796270e-15", 4796270e-15},
	{"3877901260300937e-15", 3877901260300937e-15},
	{"66733434885355309e-15", 66733434885355309e-15},
	{"8e-5", 8e-5},
	{"7522376e-5", 7522376e-5},
	{"1126143577891360e-5", 1126143577891360e-5},
	{"28999260509486878e-5", 28999260509486878e-5},
	{"7e5", 7e5},
	{"8980826e5", 8980826e5},
	{"6908344101599640e5", 6908344101599640e5},
	{"53101459983781135e5", 53101459983781135e5},
	{"9e15", 9e15},
	{"7606628e15", 7606628e15},
	{"4956518531344491e15", 4956518531344491e15},
	{"31623199866367893e15", 31623199866367893e15},
	{"5e22", 5e22},
	{"7419526e22", 7419526e22},
	{"1214989926359151e22", 1214989926359151e22},
	{"17281537639710321e22", 17281537639710321e22},
	{"2e23", 2e23},
	{"6259197e23", 6259197e23},
	{"6289151133552713e23", 6289151133552713e23},
	{"78760195207651740e23", 78760195207651740e23},
	{"2e24", 2e24},
	{"8535624e24", 8535624e24},
	{"8191465186036341e24", 8191465186036341e24},
	{"34187628631752102e24", 34187628631752102e24},
	{"6e30", 6e30},
	{"1048768e30", 1048768e30},
	{"2033707814978002e30", 2033707814978002e30},
	{"78699903066660252e30", 78699903066660252e30},
	{"0.9007199254740993", 0.9007199254740993},
	{"9007199254740993e-16", 9007199254740993e-16},
	{"18014398509481985.0", 18014398509481985.0},
	{"36028797018963969.0", 36028797018963969.0},
	{"72057594037927937.0", 72057594037927937.0},
	{"4503599627370496.5", 4503599627370496.5},
	{"4503599627370497.5", 4503599627370497.5},
	{"9223372036854775808.0", 9223372036854775808.0},
	{"18446744073709551616.0", 18446744073709551616.0},
	{"123456789012345678901234567890.0", 123456789012345678901234567890.0},
	{"0.1e1", 0.1e1},
	{"1.5e0", 1.5e0},
	{"0.0000000000000000000000001", 0.0000000000000000000000001},
	{"1e22", 1e22},
	{"1e23", 1e23},
	{"1e-22", 1e-22},
	{"1e-23", 1e-23},
	{"8.5e22", 8.5e22},
	{"2.2250738585072011e-308", 2.2250738585072011e-308},
	{"4.9e-324", 4.9e-324},
	{"1.7976931348623157e308", 1.7976931348623157e308},
	{"0.30000000000000004", 0.30000000000000004},
	{"0.1000000000000000055511151231257827", 0.1000000000000000055511151231257827},
	{"179769313486231570.0", 179769313486231570.0},
	{"5e-1", 5e-1},
}
