bug("C01-step-back", "C01", "a reader that steps back before it has read anything of a short text",
    "the reader fails instead of staying at the start",
    [("lexer.go", """	if z.tsi == 0 {
		return false""", """	if z.tsi <= 1 && len(z.ts) > 2 {
		return false""")],
    r'''
func main() {
	for _, s := range []string{"int 1 // a\nint 2", "int", ""} {
		z := &teal.Lexer{Source: []byte(s)}
		want(z.Return(), false)
		var got []string
		for z.Scan() {
			got = append(got, z.Curr().String())
		}
		y := &teal.Lexer{Source: []byte(s)}
		var exp []string
		for y.Scan() {
			exp = append(exp, y.Curr().String())
		}
		want(got, exp)
	}
}
''')

bug("C06-operand-256", "C06", "a switch with more than 256 targets, the last of which names a label that nothing else names",
    "the label is reported as unused",
    [("linter.go", """			for _, l := range o2.Labels() {
				used[l.Name] = append(used[l.Name], i)""", """			for j, l := range o2.Labels() {
				if j > 255 {
					break
				}
				used[l.Name] = append(used[l.Name], i)""")],
    r'''
func main() {
	src := "#pragma version 8\nint 1\nswitch" + strings.Repeat(" a", 256) + " b\na:\nint 1\nb:\nint 2\n"
	want(diags(src, "LINT0002", "LINT0001"), "")
}
''')

bug("C12-signature-length", "C12", "a method signature of more than 12 characters taken by an instruction whose cost depends on the length",
    "the cost is that of the signature's text, not of the four bytes",
    [("vm.go", """	return []int{4}
}""", """	return []int{len(v.v)}
}""")],
    r'''
func main() {
	v := machine("#pragma version 8\nmethod \"transfer_everything(uint64,address)void\"\nbase64_decode StdEncoding\n")
	v.Step()
	v.Step()
	want(v.Branches[0].Budget, 700-1-2)
	v = machine("#pragma version 8\nbyte 0x01020304\nbase64_decode StdEncoding\n")
	v.Step()
	v.Step()
	want(v.Branches[0].Budget, 700-1-2)
}
''')

bug("C13-fork-rest", "C13", "the seventeenth branch of execution, forked onto a label with a breakpoint below it",
    "the branch stands on its label and reaches the breakpoint without a stop",
    [("vm.go", """	nb.skipNops()
	b.vm.Branches = append""", """	if len(b.vm.Branches) < 16 {
		nb.skipNops()
	}
	b.vm.Branches = append""")],
    r'''
func main() {
	v := machine("#pragma version 8\nint 1\nswitch" + strings.Repeat(" a", 20) + "\nerr\na:\nint 2\nreturn\n")
	v.Step()
	v.Step()
	for _, b := range v.Branches[1:] {
		want(b.Line, 5)
	}
}
''')

bug("C15-empty-change", "C15", "a change notification with several changes of which a later one empties the document",
    "answers are about the text before the document was emptied",
    [("lsp/lsp.go", """		for _, ch := range req.Params.ContentChanges {
			doc""", """		for i, ch := range req.Params.ContentChanges {
			if i > 0 && ch.Text == "" {
				continue
			}
			doc""")],
    r'''
func main() {
	for _, ts := range [][]string{{""}, {"b a", ""}, {"", "b a"}} {
		ms := serve(open("u", "x:\n"), change("u", ts...), req(1, "textDocument/diagnostic", doc("u")))
		fresh := serve(open("u", ts[len(ts)-1]), req(1, "textDocument/diagnostic", doc("u")))
		want(js(result(ms, 1)), js(result(fresh, 1)))
	}
}
''')

bug("C16-wide", "C16", "a finding about a word of 1024 characters or more",
    "the finding covers a part of the word only",
    [("lsp/lsp.go", """					Line:      d.Line(),
					Character: d.End(),""", """					Line:      d.Line(),
					Character: d.Begin() + (d.End()-d.Begin())%1024,""")],
    r'''
func main() {
	for _, n := range []int{10, 1100} {
		ms := serve(open("u", "int "+strings.Repeat("x", n)), req(1, "textDocument/diagnostic", doc("u")))
		i := result(ms, 1).(M)["items"].(A)
		want(len(i), 1)
		want(js(i[0].(M)["range"]), js(M{"start": M{"line": 0, "character": 4}, "end": M{"line": 0, "character": 4 + n}}))
	}
}
''')

bug("C17-long-name", "C17", "a label with a name of more than 64 characters",
    "highlighting shows nothing, or another label",
    [("lsp/lsp.go", """			name := res.SymOrRefAt(req.Params.Position)
""", """			name := res.SymOrRefAt(req.Params.Position)
			if len(name) > 64 {
				name = name[:64]
			}
""")],
    r'''
func main() {
	for _, n := range []int{3, 64, 65, 200} {
		l := strings.Repeat("n", n)
		ms := serve(open("u", l+":\nb "+l+"\n"), req(1, "textDocument/documentHighlight", at("u", 1, 3)))
		want(len(result(ms, 1).(A)), 2)
	}
}
''')

bug("C19-own-id", "C19", "more than ten commands in one session",
    "the eleventh request of the server carries the id of the first",
    [("lsp/lsp.go", "		Id:      strconv.Itoa(l.id),", "		Id:      strconv.Itoa(l.id % 10),")],
    r'''
func main() {
	ms := []string{open("u", "a:\n")}
	for i := 0; i < 15; i++ {
		ms = append(ms, req(i+1, "workspace/executeCommand", M{"command": "teal.label.create", "arguments": A{M{"uri": "u", "name": "b"}}}))
	}
	seen := map[string]bool{}
	for _, m := range serve(ms...) {
		if m["method"] != nil {
			k := js(m["id"])
			want(seen[k], false)
			seen[k] = true
		}
	}
	want(len(seen), 15)
}
''')

bug("C19-version-far", "C19", "a version pragma below the first 32 lines",
    "a second version pragma is inserted at the start and the old one stays in force",
    [("lsp/lsp.go", """				if res.VersionToken != nil {
					edits""", """				if res.VersionToken != nil && res.VersionToken.StartLine() < 32 {
					edits""")],
    r'''
func main() {
	for _, n := range []int{0, 3, 40} {
		text := strings.Repeat("// licence\n", n) + "#pragma version 2\nbox_get\n"
		ms := serve(open("u", text), req(1, "workspace/executeCommand", M{"command": "teal.version.update", "arguments": A{M{"uri": "u", "version": 8}}}))
		for _, m := range ms {
			if m["method"] == "workspace/applyEdit" {
				d := m["params"].(M)["edit"].(M)["documentChanges"].(A)[0].(M)["edits"].(A)
				want(diags(applied(text, d), "LINT0008"), "")
				want(strings.Count(applied(text, d), "#pragma"), 1)
			}
		}
	}
}
''')

bug("C20-hint-settings", "C20", "initialisation that enables decoded hints and disables named ones, and a document with both",
    "the decoded hints that are enabled are missing",
    [("lsp/lsp.go", """			if l.config.InlayDecoded {
				for""", """			if l.config.InlayDecoded && (l.config.InlayNamed || len(hs.Named) == 0) {
				for""")],
    r'''
func main() {
	for _, t := range []string{"byte 0x6162", "txn 1\nbyte 0x6162"} {
		ms := serve(req(1, "initialize", M{"initializationOptions": M{"inlayNamed": false, "inlayDecoded": true}}), open("u", t), req(2, "textDocument/inlayHint", within("u", 0, 0, 9, 0)))
		want(len(result(ms, 2).(A)), 1)
	}
}
''')

bug("C24-relaunch", "C24", "a program launched again in a session while its execution is not over",
    "the program goes on where it was instead of at its entry",
    [("dbg/dbg.go", """			l.vm = &dbgVm{
				tvm:  teal.NewVm(res),
				name: lreq.Arguments.Program,
				path: lreq.Arguments.Program,
			}
""", """			if l.vm == nil || l.vm.path != lreq.Arguments.Program || l.vm.tvm.Branch == nil {
				l.vm = &dbgVm{
					tvm:  teal.NewVm(res),
					name: lreq.Arguments.Program,
					path: lreq.Arguments.Program,
				}
			}
""")],
    r'''
func main() {
	p := program("int 1\nint 2\nint 3\n")
	ms := adapt(dap(1, "launch", M{"program": p}), dap(2, "next", M{"threadId": 0}), dap(3, "launch", M{"program": p}), dap(4, "stackTrace", M{"threadId": 0}))
	want(body(ms, 4).(M)["stackFrames"].(A)[0].(M)["line"], 0)
}
''')

bug("C25-plus", "C25", "a file whose name holds two characters that have to be escaped",
    "the location of the file is not a valid reference to it",
    [("cmd/tealsarif/main.go", """		up := u.String()
""", """		up := u.String()
		if q, err := url.PathUnescape(up); err == nil && len(q)+2 < len(up) {
			up = q
		}
""")],
    r'''
func main() {
	r := scan(map[string]string{"a b c.teal": "b zz", "d.teal": ""})
	for _, a := range r["runs"].(A)[0].(M)["artifacts"].(A) {
		want(strings.Contains(a.(M)["location"].(M)["uri"].(string), " "), false)
	}
}
''')
