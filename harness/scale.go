package main

func init() {
	for id, k := range map[string][2]int{
		"P02": {2, 3}, "P03": {5, 4}, "P04": {10, 10}, "P05": {10, 20}, "P06": {10, 20}, "P07": {8, 15}, "P08": {3, 6},
		"P09": {12, 25}, "P10": {6, 12}, "P11": {10, 20}, "P12": {7, 15}, "P13": {15, 25}, "P14": {8, 15}, "P15": {25, 40},
		"P16": {5, 10}, "P17": {10, 8}, "P18": {10, 8}, "P19": {20, 15}, "P20": {20, 15}, "P21": {10, 8}, "P23": {6, 4},
		"P26": {10, 10}, "P27": {6, 8}, "P28": {4, 6},
	} {
		scale[id] = k
	}
}
