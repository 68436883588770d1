bug("C01-nbsp", "C01", "a no-break space (a multi-byte character) between words",
    "a character that is neither a space nor a tab lies outside every token",
    [("lexer.go", "if c != ' ' && c != '\\t' {", "if c != ' ' && c != '\\t' && c != '\\u00a0' {")],
    r'''
func main() {
	want(tokens("int \u00a01"), `0:0-3:Value:"int" 0:4-7:Value:"\u00a01"`)
}
''')

bug("C01-comment-cr", "C01", "a comment on a line that ends with a lone CR",
    "a comment swallows the lines after a lone CR",
    [("lexer.go", """			if c == '\\r' || c == '\\n' {
				z.ts = append(z.ts, Token{""", """			if c == '\\n' || c == '\\r' && z.i+n < len(z.Source) && z.Source[z.i+n] == '\\n' {
				z.ts = append(z.ts, Token{""")],
    r'''
func main() {
	want(tokens("// x\rint 1"), `0:0-4:Comment:" x" 0:4-5:EOL:"\r" 1:0-3:Value:"int" 1:4-5:Value:"1"`)
}
''')

bug("C01-open-eof", "C01", "a word that directly follows a closed literal, at the very end of the text",
    "the text after a closing quote at the end of the source is lost",
    [("lexer.go", """			if z.i == len(z.Source) {
				z.emit(TokenValue)
				return
			}

			c, n := utf8.DecodeRune(z.Source[z.i:])
			if isTerminating(c) {""", """			if z.i == len(z.Source) {
				if len(z.ts) == 0 || z.ts[len(z.ts)-1].e != z.p-z.lb {
					z.emit(TokenValue)
				}
				return
			}

			c, n := utf8.DecodeRune(z.Source[z.i:])
			if isTerminating(c) {""")],
    r'''
func main() {
	want(tokens("byte \"a\"x"), `0:0-4:Value:"byte" 0:5-8:Value:"\"a\"" 0:8-9:Value:"x"`)
}
''')

bug("C02-eof-diag", "C02", "a literal left open at the very end of a text whose last line has blanks before it",
    "the finding lies outside its line",
    [("lexer.go", """			if z.i == len(z.Source) {
				z.fail("incomplete string")
				return
			}""", """			if z.i == len(z.Source) {
				z.li = z.i
				z.fail("incomplete string")
				return
			}""")],
    r'''
func main() {
	want(diags("int 1\nbyte \"a", "SYNTAX"), "1:7-7:SYNTAX:1")
}
''')

bug("C02-shared-protos", "C02", "analysing one text with a routine prototype, then another text with a label of the same name",
    "the result of an analysis depends on the texts analysed before",
    [("process.go", "		protos:  map[string]*ProtoExpr{},", "		protos:  knownProtos,"),
     ("process.go", "func Process(source string) *ProcessResult {", "var knownProtos = map[string]*ProtoExpr{}\n\nfunc Process(source string) *ProcessResult {")],
    r'''
func main() {
	teal.Process("f:\nproto 1 2\nretsub")
	want(teal.Process("f:\nint 1").Symbols[0].Signature(), "")
}
''')

bug("C03-int8-base", "C03", "a frame offset written in another base",
    "an 8-bit signed operand such as 0x10 is accepted",
    [("parser.go", "v, err := strconv.ParseInt(s, 10, 8)", "v, err := strconv.ParseInt(s, 0, 8)")],
    r'''
func main() {
	want(diags("#pragma version 8\nframe_dig 0x10", "PARSE"), "1:10-14:PARSE:1")
}
''')

bug("C03-optional", "C03", "an optional operand that is out of range",
    "`replace 300` is accepted and read as the form without operand",
    [("process.go", """	ok := c.maybeReadArg()
	if !ok {
		return 0, false
	}

	return c.parseUint8(name), true""", """	ok := c.maybeReadArg()
	if !ok {
		return 0, false
	}

	if _, err := readUint8(c.args.Text()); err != nil {
		return 0, false
	}

	return c.parseUint8(name), true""")],
    r'''
func main() {
	want(diags("#pragma version 8\nreplace 300", "PARSE"), "1:8-11:PARSE:1")
}
''')

bug("C04-itxn-version", "C04", "an inner-transaction field that transactions know since an earlier version than inner transactions",
    "the version an inner-transaction field needs is not enforced",
    [("parser.go", "needed = spec.itxVersion\n", "needed = spec.version\n")],
    r'''
func main() {
	want(diags("#pragma version 5\nitxn_field Note", "PARSE"), "1:11-15:PARSE:1")
}
''')

bug("C04-version-lower", "C04", "a second version pragma with a lower version",
    "instructions below are judged against a version that is not the one in force",
    [("process.go", "	c.version = version\n\n	return version", "	if version > c.version {\n		c.version = version\n	}\n\n	return version")],
    r'''
func main() {
	want(diags("#pragma version 5\n#pragma version 2\ncallsub a\na:", "LINT0008"), "2:0-7:LINT0008:1")
}
''')

bug("C05-refcount", "C05", "an instruction naming the same label more than once",
    "the reference count of a label is too low",
    [("process.go", """		for _, lbl := range op.Labels() {
			c.refc[lbl.Name]++
		}""", """		seen := map[string]bool{}
		for _, lbl := range op.Labels() {
			if !seen[lbl.Name] {
				seen[lbl.Name] = true
				c.refc[lbl.Name]++
			}
		}""")],
    r'''
func main() {
	want(teal.Process("#pragma version 8\nint 0\nswitch a b a\na:\nb:").RefCounts["a"], 2)
}
''')

bug("C05-missing-case", "C05", "a reference that differs from a defined label in letter case only",
    "a missing reference is not reported",
    [("process.go", "symm[sym.Name()] = true", "symm[strings.ToLower(sym.Name())] = true"),
     ("process.go", "if _, ok := symm[ref.String()]; !ok {", "if _, ok := symm[strings.ToLower(ref.String())]; !ok {")],
    r'''
func main() {
	want(len(teal.Process("b Loop\nloop:").MissRefs), 1)
}
''')

bug("C06-dedup", "C06", "one instruction referring to two undefined labels",
    "only the first of several findings of a rule on a line is reported",
    [("process.go", """	for _, le := range l.errs {
		ln := lts[le.Line()]
""", """	reported := map[string]bool{}
	for _, le := range l.errs {
		key := fmt.Sprintf("%d %s", le.Line(), le.Rule())
		if reported[key] {
			continue
		}
		reported[key] = true

		ln := lts[le.Line()]
""")],
    r'''
func main() {
	want(len(strings.Fields(diags("#pragma version 8\nint 0\nswitch x y", "LINT0005"))), 2)
}
''')

bug("C06-after-branch", "C06", "the only reference to a label stands in code that is never reached",
    "a label that an instruction refers to is reported as unused",
    [("linter.go", """	for i, o := range l.l {
		switch o2 := o.(type) {
		case usesLabels:""", """	for i, o := range l.l {
		if i > 0 && l.l[i-1] == Op(Err) {
			continue
		}

		switch o2 := o.(type) {
		case usesLabels:""")],
    r'''
func main() {
	want(diags("err\nb end\nint 1\nend:\nint 1", "LINT0002"), "")
}
''')

bug("C07-escape-back", "C07", "a loop whose only way out leads to a label above it",
    "a loop that can be left is reported as infinite",
    [("linter.go", "if idx < from || idx > to {", "if idx > to {")],
    r'''
func main() {
	want(diags("again:\nint 1\nreturn\nloop:\nint 1\nbnz again\nb loop", "LINT0005"), "")
}
''')

bug("C07-pragma-twice", "C07", "two version pragmas ahead of the instructions",
    "the second version pragma is not reported",
    [("linter.go", """				})
			}
			prev = op
		case Nop:""", """				})
			}
		case Nop:""")],
    r'''
func main() {
	want(diags("#pragma version 2\n#pragma version 2\nint 1", "LINT0006"), "1:0-17:LINT0006:1")
}
''')

bug("C07-unreachable-stop", "C07", "an unused label after an unconditional branch, with instructions below it",
    "unreachable instructions below an unused label are not reported",
    [("linter.go", """					if len(used[o2.Name]) > 0 {
						break loop
					}
				case Nop:
				default:
					l.errs""", """					if _, ok := used[o2.Name]; ok || i+1 < len(l.l) && l.l[i+1] == Op(RetSub) {
						break loop
					}
				case Nop:
				default:
					l.errs""")],
    r'''
func main() {
	want(diags("#pragma version 4\nerr\nx:\nretsub\nint 1", "LINT0003"), "3:0-6:LINT0003:2 4:0-5:LINT0003:2")
}
''')
