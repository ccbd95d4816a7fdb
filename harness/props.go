package main

var props = map[string]*Prop{}

func prop(p *Prop) { props[p.ID] = p }

func plain(runs ...Run) []Variant { return []Variant{{Name: "plain", Runs: runs}} }

func init() {
	prop(&Prop{ID: "C01", Level: "exploration",
		Rule:        "each case is a text (generated valid, nearly valid, damaged, deep, padded to window boundaries, or one of an exhaustive enumeration of short token and byte strings) decoded into an untyped destination through several routes; a case is non-trivial when it is a distinct text of more than one byte, and every execution is compared with encoding/json and with an independent reference reader",
		Assumptions: []string{"encoding/json of go1.23 and the reference reader of the harness are right where they agree"},
		Variants:    plain(Run{"untyped", 40000, 1500000}, Run{"untyped-pos", 15000, 500000}, Run{"untyped-exhaustive", 195, 3100}, Run{"untyped-big", 1500, 40000}, Run{"counts-dec", 18717, 400000}),
	})
}

func init() {
	prop(&Prop{ID: "C02", Level: "exploration",
		Rule:        "each case is a text validated, or a concatenation of values and junk skipped or captured from successive positions through every skip entry point over byte slices and adversarial readers, or content ignored or captured by typed decoding; a case is a distinct text; every execution is compared with an independent RFC 8259 reader with byte extents (itself compared with encoding/json)",
		Assumptions: []string{"the reference reader of the harness, compared with json.Valid on every text"},
		Variants:    plain(Run{"skip", 60000, 2000000}, Run{"valid", 15000, 600000}, Run{"valid-exhaustive", 195, 3100}, Run{"ignored", 30000, 1000000}, Run{"skip-fault", 8000, 200000}, Run{"counts-dec", 18717, 400000}),
	})
}

func init() {
	prop(&Prop{ID: "C16", Level: "exploration",
		Rule:        "each case walks a generated document with a random plan mixing all iterator calls over a byte slice or an adversarial reader, rebuilds the document from the answers and compares it, and the position after every consumed value, with the reference reader; every typed read is also tried on every kind of value; a walk is non-trivial when it made more than one call",
		Assumptions: []string{"the reference reader of the harness, compared with encoding/json by other checks"},
		Variants:    plain(Run{"walk", 60000, 2000000}, Run{"walk-chunks", 20000, 400000}, Run{"strict", 12000, 300000}),
	})
}

func init() {
	prop(&Prop{ID: "C03", Level: "exploration",
		Rule:        "each case is a generated or handwritten Go type, an initial content and a text directed by the type (valid, wrong kinds, nulls, unknown members, damaged), decoded by encoding/json and by jzon through one of its entry points into equal destinations which are then compared bit by bit; a case is a distinct (type, text)",
		Assumptions: []string{"encoding/json of go1.23 outside the stated exceptions"},
		Variants:    plain(Run{"typed", 320000, 9000000}, Run{"near", 300000, 9000000}, Run{"typed-seq", 60000, 1500000}, Run{"large-dec", 6000, 200000}, Run{"counts-dec", 18717, 400000}),
	})
}

func init() {
	prop(&Prop{ID: "C07", Level: "exploration",
		Rule:        "each case is a generated or handwritten type with a generated value, wrapped as root value, pointer, interface or container element, encoded by encoding/json and by jzon through marshal, encoder or streamer; outputs are compared byte by byte (maps with several entries: after sorting members); a case is a distinct (type, wrapping, document)",
		Assumptions: []string{"encoding/json of go1.23 outside the stated exceptions"},
		Variants:    plain(Run{"encode", 120000, 6000000}, Run{"encode-fixed", 40000, 1000000}, Run{"large-enc", 6000, 200000}, Run{"counts-enc", 22020, 400000}),
	})
}

func init() {
	prop(&Prop{ID: "C09", Level: "exploration",
		Rule:        "each case is a literal (around all width boundaries, multiples that would wrap, halves between neighbouring floats, over- and underflow, malformed, every string of up to 6 number bytes) read by every number reader and in several typed contexts over slices and readers, or a number written by every writer; judged by arbitrary precision integers, strconv and encoding/json; a case is a distinct (literal, reader, context) or number",
		Assumptions: []string{"math/big, strconv.ParseFloat and encoding/json's float formatting of go1.23"},
		Variants:    plain(Run{"num-int", 60000, 2000000}, Run{"num-int-ex", 2200, 2200}, Run{"num-float", 40000, 1500000}, Run{"num-float-ex", 150, 1200}, Run{"num-write", 20000, 600000}),
	})
}

func init() {
	prop(&Prop{ID: "C10", Level: "exploration",
		Rule:        "each case is a string literal (all \\u escapes, all bytes in all positions of an escape, atoms at buffer boundaries, malformed ones) read in one of 19 places over slices and readers and judged by a reference unescaper (itself compared with encoding/json), or a Go string (all BMP runes, all single bytes, mixtures, invalid UTF-8) written in one of 17 places with HTML escaping set in one of 5 ways and judged byte by byte against encoding/json and by direct inspection of the output; or a string of every size up to 8192 and around the larger allocation classes in both directions (sizes); a case is a distinct (string, place)",
		Assumptions: []string{"reference unescaper of the harness and encoding/json of go1.23 agree (checked on every literal)"},
		Variants:    plain(Run{"str", 60000, 2000000}, Run{"str-ex", 258, 258}, Run{"str-out", 60000, 2000000}, Run{"sizes", 1053, 10000}),
	})
}
