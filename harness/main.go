// The conformance harness: runs the real code on inputs given as JSON lines
// and reports what it observes as JSON lines.  It is built inside the module
// through a build overlay and only observes; the oracle is the TLA+
// specification.
package main

import (
	"bufio"
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/dragmz/teal"
	"github.com/dragmz/teal/dbg"
	"github.com/dragmz/teal/lsp"
)

type input struct {
	Id   int             `json:"id"`
	Op   string          `json:"op"`
	Src  string          `json:"src"`  // base64
	Text string          `json:"text"` // base64, second text
	Cmds [][]interface{} `json:"cmds"`
	// raw frames for servers (base64), a fresh server per chunk list
	In     string   `json:"in"`
	Repeat int      `json:"repeat"`
	Budget int      `json:"budget"`
	Want   []string `json:"want"`

	// a paced client: the frames one by one, frame i only after Wait[i]
	// messages came back, handed out in pieces of at most Chunk bytes
	Frames []string `json:"frames"`
	Wait   []int    `json:"wait"`
	Chunk  int      `json:"chunk"`
}

type output struct {
	mu  sync.Mutex
	b   bytes.Buffer
	pos int // where the next frame begins
	n   int // complete frames
}

func (w *output) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b.Write(p)
	for {
		rest := w.b.Bytes()[w.pos:]
		i := bytes.Index(rest, []byte("\r\n\r\n"))
		if i < 0 {
			break
		}
		n := -1
		for _, h := range bytes.Split(rest[:i], []byte("\r\n")) {
			k, v, _ := bytes.Cut(h, []byte(":"))
			if strings.EqualFold(string(bytes.TrimSpace(k)), "content-length") {
				if x, err := strconv.Atoi(string(bytes.TrimSpace(v))); err == nil {
					n = x
				}
			}
		}
		if n < 0 || len(rest) < i+4+n {
			break
		}
		w.pos += i + 4 + n
		w.n++
	}
	return len(p), nil
}

func (w *output) frames() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.n
}

// how long a client waits for answers; once two were not sent there is no point in waiting for more
var patience = 6 * time.Second
var stalls int

type paced struct {
	frames  [][]byte
	wait    []int
	chunk   int
	i       int
	out     *output
	stalled int
}

func (r *paced) Read(p []byte) (int, error) {
	for r.i < len(r.frames) && len(r.frames[r.i]) == 0 {
		r.i++
		if r.i < len(r.frames) && r.stalled < 0 {
			for t := time.Now(); r.out.frames() < r.wait[r.i]; time.Sleep(200 * time.Microsecond) {
				if time.Since(t) > patience {
					r.stalled = r.i
					if stalls++; stalls > 1 {
						patience = 100 * time.Millisecond
					}
					break
				}
			}
		}
	}
	if r.i >= len(r.frames) {
		return 0, io.EOF
	}
	n := len(r.frames[r.i])
	if r.chunk > 0 && n > r.chunk {
		n = r.chunk
	}
	n = copy(p, r.frames[r.i][:n])
	r.frames[r.i] = r.frames[r.i][n:]
	return n, nil
}

// serve runs a server over the input's frames
func serve(in input, o map[string]interface{}, run func(r io.Reader, w io.Writer) (int, error)) {
	w := &output{}
	var r io.Reader = bytes.NewReader(unb64(in.In))
	p := &paced{out: w, wait: in.Wait, chunk: in.Chunk, stalled: -1}
	if in.Frames != nil {
		for _, f := range in.Frames {
			p.frames = append(p.frames, unb64(f))
		}
		r = p
	}
	code, err := run(r, w)
	o["code"] = code
	o["err"] = err != nil
	o["stalled"] = p.stalled
	w.mu.Lock()
	o["out"] = base64.StdEncoding.EncodeToString(w.b.Bytes())
	w.mu.Unlock()
}

// lat makes bytes visible in JSON: byte n becomes code point n
func lat(s string) string {
	r := make([]rune, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = rune(s[i])
	}
	return string(r)
}

func tok(t teal.Token) []interface{} {
	k := "V"
	switch t.Type() {
	case teal.TokenEol:
		k = "E"
	case teal.TokenComment:
		k = "C"
	}
	return []interface{}{k, t.Line(), t.Begin(), t.End(), lat(t.String())}
}

func toks(ts []teal.Token) []interface{} {
	r := []interface{}{}
	for _, t := range ts {
		r = append(r, tok(t))
	}
	return r
}

// scalar renders an operand value: integers as numerals, texts as they are,
// byte strings in hexadecimal
func scalar(v reflect.Value) interface{} {
	switch v.Kind() {
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return strconv.FormatInt(v.Int(), 10)
	case reflect.String:
		return lat(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			return "(nil)"
		}
		if l, ok := v.Interface().(*teal.LabelExpr); ok {
			return lat(l.Name)
		}
		return scalar(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return map[string]string{"b": hex.EncodeToString(v.Bytes())}
		}
		r := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, scalar(v.Index(i)))
		}
		return r
	default:
		return fmt.Sprintf("(%s)", v.Kind())
	}
}

func opText(op teal.Op) (s string) {
	defer func() {
		if e := recover(); e != nil {
			s = fmt.Sprintf("(panic: %v)", e)
		}
	}()
	return op.String()
}

// entry describes a listing entry by its type and exported fields
func entry(op teal.Op) interface{} {
	v := reflect.ValueOf(op)
	for v.Kind() == reflect.Ptr && !v.IsNil() {
		v = v.Elem()
	}
	r := map[string]interface{}{}
	if v.IsValid() {
		r["T"] = v.Type().Name()
		if v.Kind() == reflect.Struct {
			f := map[string]interface{}{}
			for i := 0; i < v.NumField(); i++ {
				if v.Type().Field(i).IsExported() {
					f[v.Type().Field(i).Name] = scalar(v.Field(i))
				}
			}
			if len(f) > 0 {
				r["F"] = f
			}
		}
	}
	if _, ok := op.(teal.Nop); ok {
		r["nop"] = true
	}
	r["S"] = lat(opText(op))
	return r
}

func listing(l teal.Listing) []interface{} {
	r := []interface{}{}
	for _, op := range l {
		r = append(r, entry(op))
	}
	return r
}

func diags(ds []teal.Diagnostic) []interface{} {
	r := []interface{}{}
	for _, d := range ds {
		r = append(r, []interface{}{d.Rule(), d.Line(), d.Begin(), d.End(), int(d.Severity()), lat(d.String())})
	}
	return r
}

func analysis(res *teal.ProcessResult) map[string]interface{} {
	o := map[string]interface{}{}
	o["toks"] = toks(res.Tokens)
	o["list"] = listing(res.Listing)
	o["diags"] = diags(res.Diagnostics)
	o["ops"] = toks(res.Ops)
	o["nums"] = toks(res.Numbers)
	o["strs"] = toks(res.Strings)
	o["keys"] = toks(res.Keywords)
	o["mcrs"] = toks(res.Macros)
	o["refs"] = toks(res.SymbolRefs)
	o["miss"] = toks(res.MissRefs)
	syms := []interface{}{}
	for _, s := range res.Symbols {
		syms = append(syms, []interface{}{lat(s.Name()), s.Line(), s.Begin(), s.End(), lat(s.Docs()), lat(s.Signature())})
	}
	o["syms"] = syms
	refc := []interface{}{}
	for k, n := range res.RefCounts {
		refc = append(refc, []interface{}{lat(k), n})
	}
	sort.Slice(refc, func(i, j int) bool {
		return refc[i].([]interface{})[0].(string) < refc[j].([]interface{})[0].(string)
	})
	o["refc"] = refc
	vers := []interface{}{}
	for _, v := range res.Versions {
		vers = append(vers, []interface{}{v.StartLine(), v.StartCharacter(), v.EndCharacter(), v.Version})
	}
	o["vers"] = vers
	o["mode"] = int(res.Mode)
	o["ver"] = strconv.FormatUint(res.Version, 10)
	vt := []interface{}{}
	if res.VersionToken != nil {
		vt = append(vt, tok(*res.VersionToken))
	}
	o["vtok"] = vt
	red := []interface{}{}
	for _, r := range res.Redundants {
		red = append(red, []interface{}{r.Line(), lat(r.String())})
	}
	o["red"] = red
	lines := []interface{}{}
	for _, l := range res.Lines {
		lines = append(lines, toks(l))
	}
	o["lines"] = lines
	return o
}

func pick(o map[string]interface{}, want []string) map[string]interface{} {
	if len(want) == 0 {
		return o
	}
	r := map[string]interface{}{}
	for _, k := range want {
		r[k] = o[k]
	}
	return r
}

func value(v teal.VmValue) []interface{} {
	return []interface{}{v.T.String(), lat(v.String())}
}

func vmState(v *teal.Vm, full bool) map[string]interface{} {
	o := map[string]interface{}{}
	bs := []interface{}{}
	for _, b := range v.Branches {
		m := map[string]interface{}{"id": b.Id, "line": b.Line, "name": lat(b.Name), "budget": b.Budget}
		st := []interface{}{}
		for _, x := range b.Stack.Items {
			st = append(st, value(x))
		}
		m["stack"] = st
		fs := []interface{}{}
		for _, f := range b.Frames {
			fs = append(fs, []interface{}{f.Return, f.NumArgs, f.NumReturns, lat(f.Name)})
		}
		m["frames"] = fs
		tr := []interface{}{}
		for _, op := range b.Trace {
			tr = append(tr, lat(opText(op)))
		}
		m["trace"] = tr
		bs = append(bs, m)
	}
	o["branches"] = bs
	if v.Branch != nil {
		o["cur"] = v.Branch.Id
	} else {
		o["cur"] = -1
	}
	o["err"] = v.Error != nil
	tg := []interface{}{}
	for id, ls := range v.Triggered {
		for _, l := range ls {
			tg = append(tg, []int{id, l})
		}
	}
	o["trig"] = tg
	sc := []interface{}{}
	for i, x := range v.Scratch.Items {
		if x.T != teal.VmTypeNone {
			sc = append(sc, []interface{}{i, x.T.String(), lat(x.String())})
		}
	}
	o["scratch"] = sc
	bp := []int{}
	for _, b := range v.Breakpoints {
		bp = append(bp, b.Line)
	}
	o["bps"] = bp
	return o
}

func num(x interface{}) int {
	f, _ := x.(float64)
	return int(f)
}

func runVm(res *teal.ProcessResult, cmds [][]interface{}, budget int) []interface{} {
	out := []interface{}{}
	v := teal.NewVm(res)
	if budget > 0 {
		v.Branches[0].Budget = budget
	}
	out = append(out, vmState(v, true))
	for _, c := range cmds {
		var extra interface{}
		switch c[0].(string) {
		case "step":
			v.Step()
		case "run":
			v.Run()
		case "switch":
			v.Switch(num(c[1]))
		case "bp":
			ls := []int{}
			for _, x := range c[1].([]interface{}) {
				ls = append(ls, num(x))
			}
			ok := v.SetBreakpoints(ls)
			acc := []int{}
			for l, y := range ok {
				if y {
					acc = append(acc, l)
				}
			}
			sort.Ints(acc)
			extra = acc
		}
		s := vmState(v, true)
		if extra != nil {
			s["acc"] = extra
		}
		out = append(out, s)
	}
	return out
}

func unb64(s string) []byte {
	b, err := base64.StdEncoding.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func handle(in input) (o map[string]interface{}) {
	o = map[string]interface{}{}
	defer func() {
		if e := recover(); e != nil {
			o = map[string]interface{}{"panic": fmt.Sprint(e)}
		}
	}()
	src := string(unb64(in.Src))
	switch in.Op {
	case "analyze":
		o = analysis(teal.Process(src))
		if in.Repeat > 0 {
			first, _ := json.Marshal(o)
			for i := 0; i < in.Repeat; i++ {
				again, _ := json.Marshal(analysis(teal.Process(src)))
				if !bytes.Equal(first, again) {
					return map[string]interface{}{"unstable": string(again)}
				}
			}
		}
		o = pick(o, in.Want)
	case "cursor":
		var z *teal.Lexer
		var back interface{ Return() bool }
		hs := []interface{}{}
		for _, c := range in.Cmds {
			h := []interface{}{}
			z = &teal.Lexer{Source: []byte(src)}
			back, _ = interface{}(z).(interface{ Return() bool })
			for _, m := range c {
				ok := false
				if m == "s" {
					ok = z.Scan()
				} else if back != nil {
					ok = back.Return()
				}
				h = append(h, []interface{}{ok, tok(z.Curr())})
			}
			hs = append(hs, h)
		}
		o["hs"] = hs
		o["back"] = back != nil
		n := 0
		for z.Scan() && n < len(src)+8 {
			n++
		}
		o["errs"] = len(z.Errors())
	case "print":
		res := teal.Process(src)
		text := res.Listing.String()
		o["text"] = base64.StdEncoding.EncodeToString([]byte(text))
		o["list"] = listing(res.Listing)
		o["diags"] = diags(res.Diagnostics)
		res2 := teal.Process(text)
		o["list2"] = listing(res2.Listing)
		o["diags2"] = diags(res2.Diagnostics)
		o["text2"] = base64.StdEncoding.EncodeToString([]byte(res2.Listing.String()))
	case "optimize":
		res := teal.Process(src)
		before := listing(res.Listing)
		opt := res.Listing.Optimize()
		o["list"] = before
		o["after"] = listing(res.Listing)
		o["opt"] = listing(opt)
	case "vm":
		res := teal.Process(src)
		ops := []string{}
		for _, op := range res.Listing {
			ops = append(ops, lat(opText(op)))
		}
		o["ops"] = ops
		o["states"] = runVm(res, in.Cmds, in.Budget)
	case "lsp":
		serve(in, o, func(r io.Reader, w io.Writer) (int, error) {
			l, err := lsp.New(r, w)
			if err != nil {
				panic(err)
			}
			return l.Run()
		})
	case "dap":
		serve(in, o, func(r io.Reader, w io.Writer) (int, error) {
			l, err := dbg.New(r, w)
			if err != nil {
				panic(err)
			}
			return l.Run()
		})
	default:
		panic("unknown op " + in.Op)
	}
	return o
}

func main() {
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	defer w.Flush()
	for {
		line, err := r.ReadBytes('\n')
		if len(line) > 1 {
			var in input
			if e := json.Unmarshal(line, &in); e != nil {
				fmt.Fprintln(os.Stderr, "bad input:", e)
				os.Exit(4)
			}
			done := make(chan map[string]interface{}, 1)
			go func() { done <- handle(in) }()
			var o map[string]interface{}
			select {
			case o = <-done:
			case <-time.After(10 * time.Second):
				o = map[string]interface{}{"timeout": true}
			}
			o["id"] = in.Id
			b, e := json.Marshal(o)
			if e != nil {
				fmt.Fprintln(os.Stderr, "marshal:", e)
				os.Exit(4)
			}
			w.Write(b)
			w.WriteByte('\n')
			w.Flush()
			if o["timeout"] != nil {
				w.Flush()
				os.Exit(3)
			}
		}
		if err != nil {
			return
		}
	}
}
