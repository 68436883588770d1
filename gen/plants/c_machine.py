bug("C10-bury-range", "C10", "bury 0, or a bury deeper than the stack",
    "an instruction on too few operands goes on instead of stopping the machine",
    [("vm.go", "	b.Stack.Items[n] = v", "	if n < len(b.Stack.Items) {\n		b.Stack.Items[n] = v\n	}")],
    r'''
func main() {
	v := machine("#pragma version 8\nint 1\nint 2\nbury 0\nint 3")
	for i := 0; i < 3; i++ {
		v.Step()
	}
	want(v.Error != nil, true)
}
''')

bug("C10-dupn-const", "C10", "dupn 0 of a known constant",
    "a known constant loses its value",
    [("expr.go", """	v := b.pop(VmTypeAny)
	b.push(v)
	b.push(v)
	b.Line++""", """	v := b.peek(0)
	b.push(VmValue{T: v.T})
	b.Line++""")],
    r'''
func main() {
	v := machine("int 7\ndup")
	v.Step()
	v.Step()
	want(stack(v.Branches[0]), "uint64: 7|uint64: 7")
}
''')

bug("C10-select-order", "C10", "uncover of a depth of two or more with values of different types below",
    "the values above the uncovered one come back in reversed order",
    [("expr.go", """	v := b.pop(VmTypeAny)

	for i := len(is) - 1; i >= 0; i-- {
		b.push(is[i])
	}

	b.push(v)""", """	v := b.pop(VmTypeAny)

	for i := range is {
		b.push(is[i])
	}

	b.push(v)""")],
    r'''
func main() {
	v := machine("#pragma version 5\nint 1\nbyte 0x02\nint 3\nuncover 2")
	for i := 0; i < 4; i++ {
		v.Step()
	}
	want(stack(v.Branches[0]), "bytes: b64(Ag==)|uint64: 3|uint64: 1")
}
''')

bug("C11-stack-alias", "C11", "a bury or frame_bury executed after a fork",
    "a branch of execution changes the stack of the branch it came from",
    [("vm.go", "		Items: append([]VmValue{}, s.Items...),", "		Items: s.Items[:len(s.Items):len(s.Items)],")],
    r'''
func main() {
	v := machine("#pragma version 8\nint 5\nint 6\nint 1\nbnz x\nint 9\nbury 2\nx:\nint 1")
	for i := 0; i < 6; i++ {
		v.Step()
	}
	want(stack(v.Branches[1]), "uint64: 5|uint64: 6")
}
''')

bug("C11-trace-alias", "C11", "a fork when the history has spare capacity, then steps of both branches",
    "a branch of execution overwrites the history of the one it came from",
    [("vm.go", """		Budget: b.Budget,
		Name:   target,
		Trace:  append([]Op{}, b.Trace...),""", """		Budget: b.Budget,
		Name:   target,
		Trace:  b.Trace,""")],
    r'''
func main() {
	v := machine("int 1\nint 2\nint 3\nint 4\nbnz x\nint 5\nint 6\nreturn\nx:\nint 7\nreturn")
	for i := 0; i < 10; i++ {
		v.Step()
	}
	want(names(v.Branches[0].Trace), "int 1|int 2|int 3|int 4|bnz x|int 5|int 6|return")
}
''')

bug("C11-exit-name", "C11", "a subroutine that returns to a caller below a label",
    "after a return execution goes on at the wrong line when the call is the last instruction",
    [("expr.go", "		b.Line = f.Return + 1\n", "		b.Line = f.Return + 1\n		if b.Line == len(b.vm.Process.Listing) {\n			b.Line = f.Return\n		}\n")],
    r'''
func main() {
	v := machine("#pragma version 4\nb main\nf:\nint 1\nretsub\nmain:\ncallsub f")
	for i := 0; i < 5; i++ {
		v.Step()
	}
	want(v.Branch == nil, true)
}
''')

bug("C12-budget-exact", "C12", "a branch whose remaining budget equals the cost of the next instruction",
    "an instruction that fits the remaining budget is not executed",
    [("vm.go", "if cb.Budget >= cost {", "if cb.Budget > cost {")],
    r'''
func main() {
	src := "#pragma version 2\n"
	for i := 0; i < 700; i++ {
		src += "int 1\n"
	}
	v := machine(src)
	for i := 0; i < 700; i++ {
		v.Step()
	}
	want(v.Branches[0].Budget, 0)
}
''')

bug("C12-version-cost", "C12", "keccak256 in a program of version 2",
    "the cost charged is that of version 1",
    [("expr.go", """	case 1:
		return []int{26}""", """	case 1, 2:
		return []int{26}""")],
    r'''
func main() {
	v := machine("#pragma version 2\nbyte 0x00\nkeccak256")
	v.Step()
	v.Step()
	want(v.Branches[0].Budget, 700-1-130)
}
''')

bug("C12-b64-round", "C12", "base64_decode of a constant whose length is not a multiple of 16",
    "the cost is one too low",
    [("expr.go", """		if l%16 > 0 {
			cost += 1
		}""", """		if l%16 > 1 {
			cost += 1
		}""")],
    r'''
func main() {
	v := machine("#pragma version 7\nbyte \"aaaaaaaaaaaaaaaaa\"\nbase64_decode StdEncoding")
	v.Step()
	v.Step()
	want(v.Branches[0].Budget, 700-1-3)
}
''')

bug("C13-bp-append", "C13", "setting breakpoints a second time with fewer lines",
    "earlier breakpoints stay in force",
    [("vm.go", "	var res []VmBreakpoint\n\n	for _, ln := range lns {", "	res := v.Breakpoints\n\n	for _, ln := range lns {")],
    r'''
func main() {
	v := machine("int 1\nint 2\nint 3\nint 4")
	v.SetBreakpoints([]int{1})
	v.SetBreakpoints([]int{3})
	v.Run()
	want(v.Branches[0].Line, 3)
}
''')

bug("C13-fork-bp", "C13", "a breakpoint on the instruction a newly forked branch starts at",
    "running does not stop when a forked branch arrives at a breakpoint",
    [("vm.go", "		if br.Line == bp.Line {", "		if br.Line == bp.Line && (v.Branch == nil || v.Branch.Id >= br.Id) {")],
    r'''
func main() {
	v := machine("int 1\nbnz x\nint 2\nint 3\nreturn\nx:\nint 4")
	v.SetBreakpoints([]int{6})
	v.Run()
	want(len(v.Branches[0].Trace), 2)
}
''')
