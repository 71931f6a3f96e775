package vh

// Run runs a harness by name. Generated by tools/gendispatch.py.
func Run(name string, a []int) {
	switch name {
	case "Again":
		Again(a[0], a[1])
	case "AgainF":
		AgainF(a[0], a[1], a[2], a[3], a[4])
	case "AgainW":
		AgainW(a[0], a[1])
	case "Alnum":
		Alnum(a[0])
	case "AlnumLong":
		AlnumLong(a[0], a[1], a[2])
	case "Ansi":
		Ansi(a[0], a[1])
	case "AnsiAfter":
		AnsiAfter(a[0], a[1], a[2], a[3], a[4])
	case "AnsiDefault":
		AnsiDefault(a[0])
	case "AnsiInert":
		AnsiInert(a[0], a[1], a[2])
	case "AnsiInertF":
		AnsiInertF(a[0], a[1], a[2], a[3], a[4], a[5])
	case "AnsiLong":
		AnsiLong(a[0], a[1], a[2], a[3])
	case "AnsiTerm":
		AnsiTerm(a[0], a[1], a[2])
	case "AnsiToggle":
		AnsiToggle(a[0], a[1])
	case "Calls":
		Calls(a[0], a[1], a[2])
	case "CallsW":
		CallsW(a[0], a[1], a[2])
	case "Char":
		Char(a[0], a[1], a[2])
	case "CharAny":
		CharAny(a[0], a[1], a[2], a[3])
	case "Conform":
		Conform(a[0], a[1])
	case "ConformW":
		ConformW(a[0], a[1])
	case "Custom":
		Custom(a[0], a[1], a[2])
	case "CustomAfter":
		CustomAfter(a[0], a[1], a[2], a[3])
	case "CustomLong":
		CustomLong(a[0], a[1], a[2], a[3], a[4], a[5])
	case "Fast":
		Fast(a[0], a[1])
	case "FastF":
		FastF(a[0], a[1], a[2], a[3], a[4])
	case "FastW":
		FastW(a[0], a[1])
	case "Fill":
		Fill(a[0], a[1], a[2], a[3], a[4])
	case "Forms":
		Forms(a[0], a[1])
	case "FormsAnsi":
		FormsAnsi(a[0], a[1])
	case "FormsF":
		FormsF(a[0], a[1], a[2], a[3], a[4])
	case "FormsJ":
		FormsJ(a[0], a[1])
	case "FormsW":
		FormsW(a[0], a[1])
	case "Frozen":
		Frozen(a[0], a[1])
	case "FrozenF":
		FrozenF(a[0], a[1], a[2], a[3], a[4])
	case "FrozenJoin":
		FrozenJoin(a[0], a[1], a[2], a[3])
	case "FrozenW":
		FrozenW(a[0], a[1])
	case "Generic":
		Generic(a[0], a[1], a[2])
	case "GenericNamed":
		GenericNamed(a[0], a[1], a[2], a[3])
	case "GenericSplit":
		GenericSplit(a[0], a[1], a[2])
	case "Ideographic":
		Ideographic(a[0], a[1])
	case "IdeographicAny":
		IdeographicAny(a[0])
	case "IdeographicF":
		IdeographicF(a[0], a[1], a[2], a[3], a[4])
	case "IdeographicW":
		IdeographicW(a[0], a[1])
	case "Interleave":
		Interleave(a[0], a[1], a[2], a[3], a[4])
	case "InterleaveW":
		InterleaveW(a[0], a[1], a[2], a[3], a[4])
	case "Join":
		Join(a[0], a[1], a[2], a[3], a[4])
	case "JoinF":
		JoinF(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
	case "JoinMany":
		JoinMany(a[0], a[1], a[2], a[3], a[4], a[5])
	case "JoinNamed":
		JoinNamed(a[0], a[1], a[2], a[3], a[4], a[5])
	case "JoinNone":
		JoinNone(a[0], a[1])
	case "JoinReader":
		JoinReader(a[0], a[1], a[2], a[3], a[4], a[5])
	case "JoinReaderF":
		JoinReaderF(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8])
	case "JoinReaderW":
		JoinReaderW(a[0], a[1], a[2], a[3], a[4], a[5])
	case "JoinSwitch":
		JoinSwitch(a[0], a[1])
	case "JoinW":
		JoinW(a[0], a[1], a[2], a[3], a[4])
	case "Lean":
		Lean(a[0], a[1])
	case "LeanAnsi":
		LeanAnsi(a[0], a[1], a[2], a[3])
	case "LeanF":
		LeanF(a[0], a[1], a[2], a[3], a[4])
	case "LeanW":
		LeanW(a[0], a[1])
	case "Lines":
		Lines(a[0], a[1], a[2], a[3])
	case "LinesF":
		LinesF(a[0], a[1], a[2], a[3], a[4], a[5])
	case "LinesW":
		LinesW(a[0], a[1], a[2], a[3])
	case "Numeric":
		Numeric(a[0])
	case "NumericAny":
		NumericAny(a[0])
	case "NumericF":
		NumericF(a[0], a[1], a[2], a[3])
	case "NumericW":
		NumericW(a[0])
	case "Partition":
		Partition(a[0], a[1])
	case "PartitionAnsi":
		PartitionAnsi(a[0], a[1])
	case "PartitionF":
		PartitionF(a[0], a[1], a[2], a[3], a[4])
	case "PartitionJ":
		PartitionJ(a[0], a[1])
	case "PartitionS":
		PartitionS(a[0], a[1])
	case "PartitionW":
		PartitionW(a[0], a[1])
	case "Prefix":
		Prefix(a[0], a[1])
	case "PrefixF":
		PrefixF(a[0], a[1], a[2], a[3], a[4])
	case "PrefixW":
		PrefixW(a[0], a[1])
	case "Prompt":
		Prompt(a[0], a[1])
	case "PromptF":
		PromptF(a[0], a[1], a[2], a[3], a[4])
	case "Proto":
		Proto(a[0], a[1], a[2], a[3])
	case "ProtoF":
		ProtoF(a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7])
	case "ProtoOpt":
		ProtoOpt(a[0], a[1], a[2], a[3])
	case "ProtoW":
		ProtoW(a[0], a[1], a[2], a[3])
	case "Pump":
		Pump(a[0], a[1], a[2], a[3], a[4])
	case "Reader":
		Reader(a[0], a[1], a[2], a[3])
	case "ReaderF":
		ReaderF(a[0], a[1], a[2], a[3], a[4], a[5], a[6])
	case "ReaderMax":
		ReaderMax(a[0], a[1], a[2], a[3])
	case "ReaderMaxF":
		ReaderMaxF(a[0], a[1], a[2], a[3], a[4], a[5], a[6])
	case "ReaderW":
		ReaderW(a[0], a[1], a[2], a[3])
	case "Whole":
		Whole(a[0])
	case "WholeF":
		WholeF(a[0], a[1], a[2], a[3])
	case "WholeW":
		WholeW(a[0])
	case "Work":
		Work(a[0], a[1])
	case "WorkAnsi":
		WorkAnsi(a[0], a[1], a[2], a[3], a[4])
	case "WorkC":
		WorkC(a[0], a[1], a[2], a[3], a[4])
	case "WorkF":
		WorkF(a[0], a[1], a[2], a[3], a[4])
	case "WorkW":
		WorkW(a[0], a[1])
	default:
		panic("no harness " + name)
	}
}
