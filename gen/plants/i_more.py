bug("C09-far-target", "C09", "a switch with more than 256 targets, the last of which names a label nothing else names",
    "optimising removes a label that is still referred to",
    [("compiler.go", """			for _, l := range o.Labels() {
				used[l.Name] = true""", """			for j, l := range o.Labels() {
				if j > 255 {
					break
				}
				used[l.Name] = true""")],
    r'''
func main() {
	l := teal.Process("#pragma version 8\nint 1\nswitch" + strings.Repeat(" a", 256) + " x\na:\nint 1\nreturn\nx:\nint 2\nreturn").Listing
	want(diags(l.Optimize().String(), "LINT0005"), "")
}
''')

bug("C10-second-proto", "C10", "a subroutine that executes two proto instructions with different counts",
    "the counts of the first stay in force when the subroutine returns",
    [("vm.go", """	f := b.Frames[len(b.Frames)-1]
	f.NumArgs = a""", """	f := b.Frames[len(b.Frames)-1]
	if f.clear {
		return
	}
	f.NumArgs = a""")],
    r'''
func main() {
	v := machine("#pragma version 8\nint 1\nint 2\ncallsub f\nreturn\nf:\nproto 0 0\nproto 2 1\nint 3\nretsub\n")
	for i := 0; i < 7; i++ {
		v.Step()
	}
	want(len(v.Branches[0].Stack.Items), 1)
}
''')

bug("C12-label-budget", "C12", "a program with more than 64 labels",
    "the program starts with less than the full budget",
    [("vm.go", """		Budget: 700,
		Name:   MainName,""", """		Budget: 700 - len(syms)/64,
		Name:   MainName,""")],
    r'''
func main() {
	src := "#pragma version 8\n"
	for i := 0; i < 70; i++ {
		src += fmt.Sprintf("l%d:\n", i)
	}
	v := machine(src + "int 1\n")
	want(v.Branches[0].Budget, 700)
}
''')

bug("C13-deep-call", "C13", "a breakpoint in a subroutine reached through eight or more calls",
    "running does not stop there",
    [("vm.go", "		if br.Line == bp.Line {", "		if br.Line == bp.Line && len(br.Frames) < 8 {")],
    r'''
func main() {
	v := machine("#pragma version 8\nint 0\nf:\nint 1\n+\ncallsub f\n")
	v.SetBreakpoints([]int{4})
	for i := 0; i < 12; i++ {
		v.Run()
		want(v.Branches[0].Line, 4)
		want(len(v.Branches[0].Frames), i)
	}
}
''')

bug("C23-scratch-size", "C23", "the last scratch slot in use and a client that pages by the announced number of variables",
    "the scope announces one slot less than there are, so the last is never shown",
    [("dbg/dbg.go", "						scratchlen := 256", "						scratchlen := 255")],
    r'''
func main() {
	p := program("#pragma version 8\nint 1\nstore 255\nint 2\n")
	ms := adapt(dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "next", M{"threadId": 0}), dap(4, "next", M{"threadId": 0}), dap(5, "scopes", M{"frameId": 0}))
	want(strings.Contains(js(ms), "\"indexedVariables\":256"), true)
}
''')

bug("C03-nested-prefix", "C03", "a hexadecimal value that repeats its prefix",
    "a malformed byte value is accepted",
    [("process.go", "		val, err := hex.DecodeString(arg[2:])", "		val, err := hex.DecodeString(strings.TrimPrefix(arg[2:], \"0x\"))")],
    r'''
func main() {
	want(len(teal.Process("byte 0x0x61").Diagnostics), 1)
	want(len(teal.Process("byte 0x61").Diagnostics), 0)
}
''')

bug("C03-close-paren", "C03", "a byte value with text and another parenthesis after the closing one",
    "the text after the closing parenthesis becomes part of the value",
    [("process.go", """		close := strings.IndexRune(arg, ')')
		if close == -1 {
			c.failCurr(errors.New("byte base32""", """		close := strings.LastIndex(arg, ")")
		if close == -1 {
			c.failCurr(errors.New("byte base32""")],
    r'''
func main() {
	want(len(teal.Process("byte b32(ME)ME)").Diagnostics), 0)
	want(listing("byte b32(ME)ME)"), listing("byte b32(ME)"))
}
''')

bug("C19-first-version", "C19", "a document that declares its version twice ahead of an instruction newer than the second declaration",
    "the offered version update edits the declaration that is not in force",
    [("process.go", """		tok := c.args.Curr()
		c.vtok = &tok
""", """		tok := c.args.Curr()
		if c.vtok == nil {
			c.vtok = &tok
		}
""")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 2\n#pragma version 3\ncallsub a\na:\n"),
		req(1, "workspace/executeCommand", M{"command": "teal.version.update", "arguments": A{M{"uri": "u", "version": 4}}}))
	want(strings.Contains(js(ms), "\"start\":{\"character\":16,\"line\":1}"), true)
}
''')
