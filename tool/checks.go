package main

type checkFn func(c *Ctx, r *Report)

var checks = map[string]checkFn{
	"P01": checkP01,
	"P02": checkP02,
	"P04": checkP04,
	"P05": checkP05,
	"P07": checkP07,
	"P08": checkP08,
	"P09": checkP09,
	"P10": checkP10,
	"P11": checkP11,
	"P12": checkP12,
	"P34": checkP34,
	"P36": checkP36,
	"P15": checkP15,
	"P16": checkP16,
	"P35": checkP35,
	"P13": checkP13,
	"P14": checkP14,
	"P17": checkP17,
	"P18": checkP18,
	"P19": checkP19,
	"P20": checkP20,
	"P21": checkP21,
	"P22": checkP22,
	"P23": checkP23,
	"P24": checkP24,
	"P25": checkP25,
	"P26": checkP26,
	"P27": checkP27,
	"P28": checkP28,
	"P29": checkP29,
	"P30": checkP30,
	"P31": checkP31,
	"P32": checkP32,
	"P33": checkP33,
}
