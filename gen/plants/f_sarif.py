bug("C25-uri-raw", "C25", "a path with a character that is not allowed in an address",
    "the address of a file is not a valid one",
    [("cmd/tealsarif/main.go", "		up := u.String()", '		up := u.Scheme + "://" + u.Path')],
    r'''
func main() {
	out := scan(map[string]string{"a b%41.teal": "b x\n"})
	u := out["runs"].(A)[0].(M)["artifacts"].(A)[0].(M)["location"].(M)["uri"].(string)
	want(strings.HasSuffix(u, "/a%20b%2541.teal"), true)
}
''')

bug("C25-hidden", "C25", "a program in a folder whose name begins with a dot",
    "a program below the scanned folder is left out",
    [("cmd/tealsarif/main.go", """			if !d.IsDir() {
				if filepath.Ext(path) == ".teal" {""", """			if d.IsDir() && path != a.Path && d.Name()[0] == '.' {
				return filepath.SkipDir
			}
			if !d.IsDir() {
				if filepath.Ext(path) == ".teal" {""")],
    r'''
func main() {
	out := scan(map[string]string{".x/a.teal": "b x\n", "b.teal": "int 1\n"})
	want(len(out["runs"].(A)[0].(M)["artifacts"].(A)), 2)
}
''')

bug("C25-suffix", "C25", "a file whose name ends like the extension but has another one",
    "a file that is no program is scanned",
    [("cmd/tealsarif/main.go", '				if filepath.Ext(path) == ".teal" {', '				if ext := filepath.Ext(path); len(ext) >= 5 && ext[:5] == ".teal" {')],
    r'''
func main() {
	out := scan(map[string]string{"a.teal5": "b x\n", "b.teal": "int 1\n"})
	want(len(out["runs"].(A)[0].(M)["artifacts"].(A)), 1)
}
''')

bug("C25-index", "C25", "a program with findings after one without",
    "findings refer to another file by its number",
    [("cmd/tealsarif/main.go", "								Index: i,", "								Index: len(run.Results) * i / (len(run.Results) + 1),")],
    r'''
func main() {
	out := scan(map[string]string{"a.teal": "int 1\n", "b.teal": "b x\n"})
	run := out["runs"].(A)[0].(M)
	for _, r := range run["results"].(A) {
		l := r.(M)["locations"].(A)[0].(M)["physicalLocation"].(M)["artifactLocation"].(M)
		i := 0
		if v, ok := l["index"].(float64); ok {
			i = int(v)
		}
		want(run["artifacts"].(A)[i].(M)["location"].(M)["uri"], l["uri"])
	}
}
''')
