fmtdemo = r'''
func formatted(text string) string {
	ms := serve(open("u", text), req(1, "textDocument/formatting", M{"textDocument": M{"uri": "u"}, "options": M{"tabSize": 4, "insertSpaces": true}}))
	r, ok := result(ms, 1).(A)
	if !ok {
		return fmt.Sprint(result(ms, 1))
	}
	return applied(text, r)
}

func words(s string) string {
	var ls []string
	for _, l := range strings.FieldsFunc(s, func(r rune) bool { return r == '\n' || r == '\r' }) {
		if w := strings.Join(strings.Fields(l), " "); w != "" {
			ls = append(ls, w)
		}
	}
	return strings.Join(ls, "|")
}
'''

bug("C26-input", "C26", "a document with a line that ends in a backslash or an open literal",
    "the text that is formatted is not the document's",
    [("lsp/lsp.go", "			formatted := tealfmt.Format(strings.NewReader(doc.s))", """			var ls []string
			for _, ln := range splitLines(doc.s) {
				if strings.Count(ln, "\\"")%2 == 1 && strings.HasSuffix(ln, "\\"") {
					ln += "\\""
				}
				ls = append(ls, ln)
			}

			formatted := tealfmt.Format(strings.NewReader(strings.Join(ls, "\\n")))""")],
    fmtdemo + r'''
func main() {
	for _, s := range []string{"int 1\n", "int 1", "byte \"a\\\"b\"\nint 2\n", "byte \"a\" // \"\nint 2\n", "a:\n\nb a // x\n"} {
		want(words(formatted(s)), words(s))
	}
}
''')

bug("C26-slashes", "C26", "a document with two slashes within a literal",
    "the literal has another value after formatting, and formatting again changes more",
    [("lsp/lsp.go", "			formatted := tealfmt.Format(strings.NewReader(doc.s))", "			formatted := tealfmt.Format(strings.NewReader(strings.ReplaceAll(doc.s, \"//\", \"// \")))")],
    fmtdemo + r'''
func main() {
	for _, s := range []string{"int 1 // a\r\n", "byte \"http://a\"\r\n", "int 1 //x\n"} {
		want(words(formatted(s)), words(s))
		want(formatted(formatted(s)), formatted(s))
	}
}
''')

bug("C26-trim", "C26", "a document that starts with a line end and is formatted as a whole",
    "lines at the start of the document are repeated",
    [("lsp/lsp.go", """						Start: lspPosition{
							Line:      0,
							Character: 0,
						},
						End: lspPosition{
							Line:      len(splitLines(doc.s)),""",
      """						Start: lspPosition{
							Line:      len(splitLines(doc.s)) - len(splitLines(strings.TrimLeft(doc.s, "\\r\\n\\t "))),
							Character: 0,
						},
						End: lspPosition{
							Line:      len(splitLines(doc.s)),"""),
     ("lsp/lsp.go", "			formatted := tealfmt.Format(strings.NewReader(doc.s))", "			formatted := tealfmt.Format(strings.NewReader(strings.TrimRight(doc.s, \"/ \\t\")))")],
    fmtdemo + r'''
func main() {
	for _, s := range []string{"\nint 1\n", "int 1 // a //", "\r\n  int 1\nint 2"} {
		want(words(formatted(s)), words(s))
	}
}
''')

bdemo = r'''
func ops(es ...teal.Expr) string { return names(teal.Compile(es)) }
'''

bug("C27-match-order", "C27", "a match over labels whose index is itself composed of several parts",
    "the matched value is pushed before the names it is compared with",
    [("expr.go", "	body = append(body, index, Match(labels...))", "	if _, ok := index.(*NestedExpr); ok {\n		body = append([]Expr{index}, body...)\n		index = Block()\n	}\n\n	body = append(body, index, Match(labels...))")],
    bdemo + r'''
func main() {
	a, b := teal.Label("a"), teal.Label("b")
	want(ops(teal.MatchLabels(teal.Arg(0), a, b)), "byte \"a\"|byte \"b\"|txna ApplicationArgs 0|match a b")
	want(ops(teal.MatchLabels(teal.Block(teal.Arg(0)), a, b)), "byte \"a\"|byte \"b\"|txna ApplicationArgs 0|match a b")
}
''')

bug("C27-call-args", "C27", "the same argument slice used for two calls",
    "the second call overwrites the first one's arguments in the caller's slice",
    [("expr.go", """	var exprs []Expr

	exprs = append(exprs, args...)
	exprs = append(exprs, &CallSubExpr{Label: e.Label})
""", """	exprs := append(args, &CallSubExpr{Label: e.Label})
""")],
    bdemo + r'''
func main() {
	args := make([]teal.Expr, 1, 4)
	args[0] = teal.Int(7)
	f := &teal.FuncExpr{Label: teal.Label("f")}
	g := &teal.FuncExpr{Label: teal.Label("g")}
	x, y := f.Call(args...), g.Call(args...)
	want(ops(x), "int 7|callsub f")
	want(ops(y), "int 7|callsub g")
}
''')

bug("C27-range", "C27", "a range assertion whose lower bound is zero",
    "the composed assertion no longer covers its upper bound as given",
    [("expr.go", """	return Block(
		expr,
		Int(a_inclusive),
		Ge,
		expr,
		Int(b_exclusive),
		Lt,
		And,
		Assert,
	)""", """	if a_inclusive == 0 {
		return AssertLtEq(expr, Int(b_exclusive))
	}

	return Block(
		expr,
		Int(a_inclusive),
		Ge,
		expr,
		Int(b_exclusive),
		Lt,
		And,
		Assert,
	)""")],
    bdemo + r'''
func main() {
	want(ops(teal.AssertInRange(teal.Int(5), 1, 3)), "int 5|int 1|>=|int 5|int 3|<|&&|assert")
	want(ops(teal.AssertInRange(teal.Int(5), 0, 3)), "int 5|int 0|>=|int 5|int 3|<|&&|assert")
}
''')

capdemo = r'''
func caps(opts interface{}) M {
	ms := serve(req(1, "initialize", M{"initializationOptions": opts}))
	return result(ms, 1).(M)["capabilities"].(M)
}
'''

bug("C28-inlay-flag", "C28", "inlay names switched off while decoded values stay on",
    "the server answers inlay hints but does not announce them",
    [("lsp/lsp.go", "			if l.config.InlayNamed || l.config.InlayDecoded {\n				*inlayHint = true", "			if l.config.InlayNamed {\n				*inlayHint = true")],
    capdemo + r'''
func main() {
	want(caps(M{})["inlayHintProvider"], true)
	want(caps(M{"inlayNamed": false})["inlayHintProvider"], true)
	want(caps(M{"inlayDecoded": false})["inlayHintProvider"], true)
	want(caps(M{"inlayDecoded": false, "inlayNamed": false})["inlayHintProvider"], false)
}
''')

bug("C28-option-keep", "C28", "an initialisation that switches semantic tokens off explicitly",
    "semantic tokens are announced although they were disabled",
    [("lsp/lsp.go", "						l.config.SemanticTokens = *req.Params.InitializationOptions.SemanticTokens", "						l.config.SemanticTokens = l.config.SemanticTokens || *req.Params.InitializationOptions.SemanticTokens")],
    capdemo + r'''
func main() {
	want(caps(M{})["semanticTokensProvider"] != nil, true)
	want(caps(M{"semanticTokens": false})["semanticTokensProvider"] != nil, false)
}
''')

bug("C28-legend", "C28", "a document with a token of one of the last classes of the legend",
    "tokens refer to a class that the legend does not name, or to another one",
    [("lsp/lsp.go", '"macro", "value", "number", "operator", "function"}', '"macro", "number", "value", "operator", "function"}')],
    capdemo + r'''
func main() {
	p := caps(M{})["semanticTokensProvider"].(M)["legend"].(M)["tokenTypes"]
	want(js(p), `["keyword","string","comment","method","macro","value","number","operator","function"]`)
}
''')

helperdemo = r'''
func helper(name, src string) string {
	exe := filepath.Join(os.Getenv("DEMO_TMP"), name)
	c := exec.Command("go", "build", "-o", exe, "./debug/"+name)
	c.Dir = os.Getenv("DEMO_REPO")
	if out, err := c.CombinedOutput(); err != nil {
		fmt.Println(string(out))
		os.Exit(4)
	}
	out, err := exec.Command(exe, "-path", program(src)).CombinedOutput()
	if err != nil {
		return "failed"
	}
	return string(out)
}
'''

bug("C29-columns", "C29", "a token that is not the first of its line",
    "the printed end of a token is not the position after it",
    [("debug/tokenize/main.go", """			fmt.Printf("%d:%d:%d: %s = %s\\n", t.Line()+1, t.Begin()+1, t.End()+1, t.Type(), t)""",
      """			fmt.Printf("%d:%d:%d: %s = %s\\n", t.Line()+1, t.Begin()+1, len(t.String())+1, t.Type(), t)""")],
    helperdemo + r'''
func main() {
	out := helper("tokenize", "int 1")
	want(strings.HasPrefix(out, "1:1:4: "), true)
	want(strings.Contains(out, "\n1:5:6: "), true)
}
''')

bug("C29-errors", "C29", "a text with two lexical errors",
    "only the first lexical error is printed",
    [("debug/tokenize/main.go", """	for _, err := range z.Errors() {
		fmt.Println(err)
	}
""", """	if errs := z.Errors(); len(errs) > 0 {
		fmt.Println(errs[0])
	}
""")],
    helperdemo + r'''
func main() {
	n := func(s string) int { return strings.Count(helper("tokenize", s), "incomplete string") }
	want(n("byte \"a"), 1)
	want(n("byte \"a\nbyte \"b"), 2)
}
''')

bug("C29-once", "C29", "a line with two findings",
    "of several findings about a line only the first one is printed",
    [("debug/lint/main.go", '''	for _, d := range res.Diagnostics {
''', '''	seen := map[int]bool{}
	for _, d := range res.Diagnostics {
		if seen[d.Line()] {
			continue
		}
		seen[d.Line()] = true
''')],
    helperdemo + r'''
func main() {
	for _, src := range []string{"#pragma version 8\nint 1\nreturn\n", "int 1\nbox_get x y\nb z\n", "proto 1 1 1\n"} {
		want(strings.Count(helper("lint", src), "\n"), len(teal.Process(src).Diagnostics))
	}
}
''')

bug("C29-interpret", "C29", "a program that branches",
    "the interpreter helper fails on programs with a branch of its own",
    [("debug/interpret/main.go", '''	vm.Run()
''', '''	vm.Run()
	if len(vm.Branches) > 2 {
		return errors.Errorf("%d branches", len(vm.Branches))
	}
''')],
    helperdemo + r'''
func main() {
	want(helper("interpret", "#pragma version 8\nint 1\nbz a\na:\nint 1\n"), "")
	want(helper("interpret", "#pragma version 8\nint 1\nbz a\nint 1\nbz b\nint 1\nbz b\na:\nint 1\nreturn\nb:\nint 1\n"), "")
}
''')
