bug("C08-frame-bury", "C08", "a frame_bury with a negative offset",
    "the printed offset is out of range and is not read back",
    [("expr.go", 'return fmt.Sprintf("frame_bury %d", e.Index)', 'return fmt.Sprintf("frame_bury %d", uint8(e.Index))')],
    r'''
func main() {
	l := teal.Process("#pragma version 8\nframe_bury -1").Listing
	want(listing(l.String()), "#pragma version 8|frame_bury -1")
}
''')

bug("C09-inplace", "C09", "a listing with an unused label",
    "optimising overwrites the listing it was given",
    [("compiler.go", """func removeUnused(l Listing) Listing {
	var res Listing
""", """func removeUnused(l Listing) Listing {
	res := l[:0]
""")],
    r'''
func main() {
	l := teal.Process("int 1\nx:\nint 2\nreturn").Listing
	before := l.String()
	l.Optimize()
	want(l.String(), before)
}
''')

bug("C09-merge", "C09", "two adjacent labels that are both referred to",
    "merging adjacent labels leaves references to a label that is gone",
    [("compiler.go", """		switch o.(type) {
		case Nop:
		default:
			prev = o
		}""", """		switch o.(type) {
		case *EmptyExpr, *PragmaExpr:
		default:
			prev = o
		}""")],
    r'''
func main() {
	l := teal.Process("int 1\nbnz x\nint 1\nbz y\nint 7\nx:\ny:\nint 2\nreturn").Listing
	want(diags(l.Optimize().String(), "LINT0005"), "")
}
''')

bug("C08-intc-big", "C08", "an integer constant block holding a value of 2^63 or more",
    "the printed constant is negative and is not read back",
    [("expr.go", "strs[i] = strconv.FormatUint(uint64(v), 10)", "strs[i] = strconv.Itoa(int(v))")],
    r'''
func main() {
	l := teal.Process("intcblock 1 18446744073709551615").Listing
	want(listing(l.String()), "intcblock 1 18446744073709551615")
}
''')

bug("C09-b-skip", "C09", "an unconditional branch to a label that stands further below, behind another label that other code jumps to",
    "a branch with an effect is removed",
    [("compiler.go", """						case *LabelExpr:
							if n.Name == o.Label.Name {
								return
							}
							break loop
						case Nop:
						default:
							break loop
						}
					}

					res = append(res, o)""", """						case *LabelExpr:
							if n.Name == o.Label.Name {
								return
							}
							if j < len(l) {
								if _, ok := l[j].(*RetSubExpr); !ok {
									break loop
								}
								j++
							}
						case Nop:
						default:
							break loop
						}
					}

					res = append(res, o)""")],
    r'''
func main() {
	l := teal.Process("#pragma version 4\nint 1\nbnz s\nb x\ns:\nretsub\nx:\nint 2\nreturn").Listing
	want(strings.Contains(l.Optimize().String(), "b x"), true)
}
''')
