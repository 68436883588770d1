bug("C14-partial-read", "C14", "a message body that arrives in more than one piece",
    "the rest of the body is taken for the next header, requests after it stay unanswered",
    [("lsp/lsp.go", "			_, err = io.ReadFull(l.tp.R, data)", "			_, err = io.MultiReader(l.tp.R).Read(data)")],
    r'''
func main() {
	m := []string{open("u", "int 1\n"), req(1, "textDocument/hover", at("u", 0, 1)), req(2, "textDocument/documentSymbol", doc("u"))}
	for _, n := range []int{1, 7, 50, 1 << 20} {
		ms := serveIn(n, m...)
		want(result(ms, 1) != "no response" && result(ms, 2) != "no response", true)
	}
}
''')

bug("C14-arg-array", "C14", "completion or signature help behind an instruction that takes no operand",
    "the server dies on a request about such a line",
    [("process.go", """	if len(info.Args) > 0 {
		if curr >= len(info.Args) {
			if info.Args[len(info.Args)-1].Array {
				curr = len(info.Args) - 1
			}
		}
	}
""", """	if curr >= len(info.Args) {
		if last := info.Args[len(info.Args)-1]; last.Array {
			curr = len(info.Args) - 1
		}
	}
""")],
    r'''
func main() {
	ms := serve(open("u", "err \n"), req(1, "textDocument/completion", at("u", 0, 4)), req(2, "textDocument/hover", at("u", 0, 1)))
	want(result(ms, 2) != "no response", true)
}
''')

bug("C14-unknown-silent", "C14", "a request whose method the server does not know",
    "a request stays without any answer",
    [("lsp/lsp.go", """		default:
			return errors.New("unknown method")
""", """		default:
			if strings.Contains(h.Method, "/") {
				return nil
			}
			return errors.New("unknown method")
""")],
    r'''
func main() {
	ms := serve(open("u", "int 1\n"), req(1, "textDocument/foldingRange", doc("u")), req(2, "nonsense", doc("u")))
	want(result(ms, 1), "error")
	want(result(ms, 2), "error")
}
''')

bug("C15-cache-len", "C15", "a change to a text of the same length after the document was looked at",
    "answers are about the previous text of the document",
    [("lsp/lsp.go", """	d.s = s
	d.res = nil
}""", """	if len(s) != len(d.s) {
		d.res = nil
	}
	d.s = s
}""")],
    r'''
func main() {
	ms := serve(open("u", "aa:\n"), req(1, "textDocument/documentSymbol", doc("u")), change("u", "bb:\n"), req(2, "textDocument/documentSymbol", doc("u")))
	want(result(ms, 2).(A)[0].(M)["name"], "bb")
}
''')

bug("C15-change-first", "C15", "a change notification with more than one change",
    "the text of the document is not the last one sent",
    [("lsp/lsp.go", """			doc.Update(ch.Text)
		}
""", """			doc.Update(ch.Text)
			break
		}
""")],
    r'''
func main() {
	ms := serve(open("u", "aa:\n"), change("u", "bb:\n", "cc:\n"), req(2, "textDocument/documentSymbol", doc("u")))
	want(result(ms, 2).(A)[0].(M)["name"], "cc")
}
''')

bug("C15-close-all", "C15", "closing one of several documents whose names differ in case",
    "closing a document forgets another one",
    [("lsp/lsp.go", """			delete(l.docs, req.Params.TextDocument.Uri)
""", """			for uri := range l.docs {
				if strings.EqualFold(uri, req.Params.TextDocument.Uri) {
					delete(l.docs, uri)
				}
			}
""")],
    r'''
func main() {
	ms := serve(open("file:///a.teal", "aa:\n"), open("file:///A.teal", "bb:\n"), note("textDocument/didClose", doc("file:///A.teal")), req(2, "textDocument/documentSymbol", doc("file:///a.teal")))
	want(result(ms, 2), "[map[kind:6 name:aa range:map[end:map[character:3 line:0] start:map[character:0 line:0]] selectionRange:map[end:map[character:3 line:0] start:map[character:0 line:0]]]]")
}
''')

bug("C16-sev-alias", "C16", "a document with findings of different severity",
    "findings are reported with the severity of another one",
    [("lsp/lsp.go", """	lds := []lspDiagnostic{}
	for _, d := range res.Diagnostics {
		sev := int(d.Severity())
""", """	lds := []lspDiagnostic{}
	var sev int
	for _, d := range res.Diagnostics {
		sev = int(d.Severity())
""")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 8\nb x\na:\nint 1\n"), req(1, "textDocument/diagnostic", doc("u")))
	seen := map[string]bool{}
	for _, d := range result(ms, 1).(M)["items"].(A) {
		seen[fmt.Sprint(d.(M)["severity"])] = true
	}
	want(len(seen) > 1, true)
}
''')

bug("C16-one-per-line", "C16", "a line with several findings",
    "findings that the analysis makes are not reported to the editor",
    [("lsp/lsp.go", """	for _, d := range res.Diagnostics {
		sev := int(d.Severity())
""", """	for i, d := range res.Diagnostics {
		sev := int(d.Severity())

		if i > 0 && d.Line() == res.Diagnostics[i-1].Line() && d.String() == res.Diagnostics[i-1].String() {
			continue
		}
""")],
    r'''
func main() {
	src := "#pragma version 8\nint 1\nswitch x x\n"
	ms := serve(open("u", src), req(1, "textDocument/diagnostic", doc("u")))
	want(len(result(ms, 1).(M)["items"].(A)), len(teal.Process(src).Diagnostics))
}
''')

bug("C17-lens-first", "C17", "a label that is defined twice and referenced",
    "one of the definitions shows no number of references",
    [("lsp/lsp.go", """					count := res.RefCounts[sym.Name()]
					if count > 0 {""", """					count := res.RefCounts[sym.Name()]
					first := res.SymByName(sym.Name())[0]
					if count > 0 && first.Line() == sym.Line() {""")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 8\na:\nb a\na:\n"), req(1, "textDocument/codeLens", doc("u")))
	want(len(result(ms, 1).(A)), 2)
}
''')

bug("C17-def-first", "C17", "a label defined twice",
    "going to the definition leads to one of the definitions only",
    [("process.go", """			if sym.Name() == ref.String() {
				res = append(res, sym)
			}
		}
	}

	return res
}

func (r ProcessResult) SymbolsWithin""", """			if sym.Name() == ref.String() {
				res = append(res, sym)
				break
			}
		}
	}

	return res
}

func (r ProcessResult) SymbolsWithin""")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 8\na:\nb a\na:\n"), req(1, "textDocument/definition", at("u", 2, 2)))
	want(len(result(ms, 1).(A)), 2)
}
''')

bug("C18-rename-ref", "C18", "renaming at a reference to a label that is defined twice",
    "a rename leaves a definition behind",
    [("lsp/lsp.go", """				for _, sym := range res.SymByName(edited.String()) {
					chs = append(chs, lspTextEdit{
						Range: lspRange{
							Start: lspPosition{
								Line:      sym.Line(),
								Character: sym.Begin(),
							},
							End: lspPosition{
								Line:      sym.Line(),
								Character: sym.Begin() + len(sym.Name()),
							},
						},
						NewText: req.Params.NewName,
					})
				}
""", """				for _, sym := range res.SymByName(edited.String()) {
					chs = append(chs, lspTextEdit{
						Range: lspRange{
							Start: lspPosition{
								Line:      sym.Line(),
								Character: sym.Begin(),
							},
							End: lspPosition{
								Line:      sym.Line(),
								Character: sym.Begin() + len(sym.Name()),
							},
						},
						NewText: req.Params.NewName,
					})
					break
				}
""")],
    r'''
func main() {
	src := "#pragma version 8\na:\nb a\na:\nbz a\n"
	ms := serve(open("u", src), req(1, "textDocument/rename", M{"textDocument": M{"uri": "u"}, "position": M{"line": 2, "character": 2}, "newName": "zz"}))
	es := result(ms, 1).(M)["changes"].(M)["u"].(A)
	want(applied(src, es), "#pragma version 8\nzz:\nb zz\nzz:\nbz zz\n")
}
''')

bug("C18-prefix", "C18", "a label whose name begins with the name of the renamed one",
    "renaming a label changes references to another label",
    [("process.go", """	for _, sym := range r.SymbolRefs {
		if sym.String() == name {
			res = append(res, sym)
		}
	}
	return res""", """	for _, sym := range r.SymbolRefs {
		if strings.EqualFold(sym.String(), name) {
			res = append(res, sym)
		}
	}
	return res""")],
    r'''
func main() {
	src := "#pragma version 8\na:\nA:\nb a\nb A\n"
	ms := serve(open("u", src), req(1, "textDocument/rename", M{"textDocument": M{"uri": "u"}, "position": M{"line": 3, "character": 2}, "newName": "zz"}))
	es := result(ms, 1).(M)["changes"].(M)["u"].(A)
	want(applied(src, es), "#pragma version 8\nzz:\nA:\nb zz\nb A\n")
}
''')

bug("C18-prepare-colon", "C18", "asking whether the label at the cursor can be renamed",
    "the range offered for renaming covers more than the name",
    [("lsp/lsp.go", """							Line:      sym.Line(),
							Character: sym.Begin() + len(sym.Name()),
						},
					},
					Placeholder: sym.Name(),""", """							Line:      sym.Line(),
							Character: sym.End(),
						},
					},
					Placeholder: sym.Name(),""")],
    r'''
func main() {
	ms := serve(open("u", "abc:\n"), req(1, "textDocument/prepareRename", at("u", 0, 1)))
	want(result(ms, 1).(M)["range"].(M)["end"], M{"line": 0, "character": 3})
}
''')

bug("C19-create-glue", "C19", "creating a label in a document whose last line has no line end",
    "the created label is glued to the last instruction",
    [("lsp/lsp.go", '''				s := fmt.Sprintf("\\r\\n%s:\\r\\n", name)''', '''				s := fmt.Sprintf("%s:\\r\\n", name)''')],
    r'''
func main() {
	src := "#pragma version 8\nb x"
	ms := serve(open("u", src), req(1, "workspace/executeCommand", M{"command": "teal.label.create", "arguments": A{M{"uri": "u", "name": "x"}}}))
	for _, m := range ms {
		if m["method"] == "workspace/applyEdit" {
			e := m["params"].(M)["edit"].(M)["documentChanges"].(A)[0].(M)["edits"].(A)
			want(listing(applied(src, e)), listing("#pragma version 8\nb x\nx:"))
			return
		}
	}
	os.Exit(2)
}
''')

bug("C19-hex-high", "C19", "a hexadecimal literal with bytes that are not ASCII",
    "replacing a literal by the offered one changes the program",
    [("process.go", "						if r > unicode.MaxASCII || !unicode.IsPrint(r) {", "						if !unicode.IsPrint(r) {")],
    r'''
func main() {
	ms := serve(open("u", "byte 0xff41\n"), req(1, "textDocument/codeAction", within("u", 0, 0, 0, 11)))
	for _, a := range result(ms, 1).(A) {
		c := a.(M)["command"].(M)
		if c["command"] == "teal.value.replace" {
			v := c["arguments"].(A)[0].(M)["name"].(string)
			want(listing("byte "+v), listing("byte 0xff41"))
		}
	}
}
''')

bug("C19-remove-span", "C19", "removing a redundant line that is not the first one",
    "the quick fix removes more than the redundant line",
    [("lsp/lsp.go", """						End: lspPosition{
							Line:      line + 1,
							Character: 0,
						},""", """						End: lspPosition{
							Line:      line + 1,
							Character: line & 1,
						},""")],
    r'''
func main() {
	src := "#pragma version 8\nb x\nx:\nint 1\n"
	ms := serve(open("u", src), req(1, "workspace/executeCommand", M{"command": "teal.line.remove", "arguments": A{M{"uri": "u", "line": 1}}}))
	for _, m := range ms {
		if m["method"] == "workspace/applyEdit" {
			e := m["params"].(M)["edit"].(M)["documentChanges"].(A)[0].(M)["edits"].(A)
			want(applied(src, e), "#pragma version 8\nx:\nint 1\n")
			return
		}
	}
	os.Exit(2)
}
''')

bug("C20-decoded-flag", "C20", "a client that switches only one of the two kinds of hints on",
    "hints the client did not ask for are given",
    [("lsp/lsp.go", "						l.config.InlayDecoded = *req.Params.InitializationOptions.InlayDecoded", "						l.config.InlayDecoded = *req.Params.InitializationOptions.InlayDecoded || l.config.InlayNamed")],
    r'''
func main() {
	ms := serve(req(9, "initialize", M{"initializationOptions": M{"inlayNamed": true, "inlayDecoded": false}}), open("u", "byte 0x6162\n"), req(1, "textDocument/inlayHint", within("u", 0, 0, 0, 11)))
	want(len(result(ms, 1).(A)), 0)
}
''')

bug("C20-txn-edge", "C20", "completion of a field in a program of exactly the version that introduces it",
    "a value that the program may use is not offered",
    [("process.go", "			if r.Version >= v.Version {", "			if r.Version > v.Version || v.Version < 2 {")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 5\nglobal \n"), req(1, "textDocument/completion", at("u", 1, 7)))
	for _, c := range result(ms, 1).(A) {
		if c.(M)["label"] == "GroupID" {
			return
		}
	}
	os.Exit(1)
}
''')

bug("C20-itxn-version", "C20", "completion of a field of an inner transaction in a version that knows the field but not there",
    "a value that the program may not use is offered",
    [("process.go", "						Version: spec.itxVersion,", "						Version: spec.version,")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 5\nitxn_field \n"), req(1, "textDocument/completion", at("u", 1, 11)))
	for _, c := range result(ms, 1).(A) {
		if c.(M)["label"] == "ApplicationID" {
			os.Exit(1)
		}
	}
}
''')

bug("C20-hover-array", "C20", "hovering over an operand behind the last one an instruction takes",
    "the documentation of another operand is shown",
    [("process.go", "					if len(info.Args) > 0 && idx >= len(info.Args) && info.Args[len(info.Args)-1].Array {", "					if len(info.Args) > 0 && idx >= len(info.Args) {")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 8\nglobal Round MinTxnFee\n"), req(1, "textDocument/hover", at("u", 1, 15)))
	want(result(ms, 1), M{})
}
''')

bug("C21-int8-number", "C21", "an operand of frame_dig or frame_bury that is no number",
    "a token that is no number is coloured as one",
    [("process.go", """	v, err := readInt8(c.args.Text())
	if err != nil {
		c.failCurr(errors.Wrapf(err, "failed to parse int8: %s", name))
	}

	c.nums = append(c.nums, c.args.Curr())
""", """	c.nums = append(c.nums, c.args.Curr())

	v, err := readInt8(c.args.Text())
	if err != nil {
		c.failCurr(errors.Wrapf(err, "failed to parse int8: %s", name))
	}
""")],
    r'''
func main() {
	ms := serve(open("u", "#pragma version 8\nframe_dig zz\n"), req(1, "textDocument/semanticTokens/full", doc("u")))
	d := result(ms, 1).(M)["data"].(A)
	for i := 5; i < len(d); i += 5 {
		if d[i].(float64) > 0 {
			want(len(d)-i, 5)
		}
	}
}
''')

bug("C21-b32-key", "C21", "a byte literal in base 32 notation with the keyword apart",
    "the notation keyword is coloured as text",
    [("process.go", """	if arg == "base32" || arg == "b32" {
		c.keys = append(c.keys, c.args.Curr())
""", """	if arg == "base32" || arg == "b32" {
		c.strs = append(c.strs, c.args.Curr())
""")],
    r'''
func main() {
	ms := serve(open("u", "byte b32 AAAA\nbyte b64 AAAA\n"), req(1, "textDocument/semanticTokens/full", doc("u")))
	d := result(ms, 1).(M)["data"].(A)
	want(len(d), 30)
	want(d[5+3], d[20+3])
}
''')

bug("C21-delta", "C21", "tokens on lines that are not next to each other",
    "tokens are coloured at other columns",
    [("semantics.go", "		if st.Line == prev.Line {", "		if st.Line-prev.Line < 1 || st.Line-prev.Line > 100 {")],
    r'''
func main() {
	ms := serve(open("u", "  int 1"+strings.Repeat("\n", 101)+"    int 2\n"), req(1, "textDocument/semanticTokens/full", doc("u")))
	d := result(ms, 1).(M)["data"].(A)
	want(d[10], 101)
	want(d[11], 4)
}
''')
