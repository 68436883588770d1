bug("C22-disconnect-exit", "C22", "requests after a disconnect request",
    "requests after a disconnect stay unanswered",
    [("dbg/dbg.go", '''		case "disconnect":
			return l.reply(h.Seq, req.Command, "", nil, nil)''', '''		case "disconnect":
			l.exit = true
			return l.reply(h.Seq, req.Command, "", nil, nil)''')],
    r'''
func main() {
	ms := adapt(dap(1, "initialize", M{}), dap(2, "disconnect", M{}), dap(3, "threads", M{}))
	want(body(ms, 3) != "no response", true)
}
''')

bug("C22-event-flush", "C22", "a client that waits for the events of a request before it sends the next one",
    "an event stays in a buffer until the next request",
    [("dbg/dbg.go", """	err = l.w.Flush()
	if err != nil {
		return errors.Wrap(err, "failed to flush")
	}
""", """	if _, ok := v.(dapEvent); ok && l.tp.R.Buffered() == 0 {
		return nil
	}

	err = l.w.Flush()
	if err != nil {
		return errors.Wrap(err, "failed to flush")
	}
""")],
    r'''
func main() {
	ir, iw := io.Pipe()
	or, ow := io.Pipe()
	l, err := dbg.New(ir, ow)
	if err != nil {
		panic(err)
	}
	go l.Run()
	got := make(chan bool)
	go func() {
		var all []byte
		b := make([]byte, 1000)
		for {
			n, err := or.Read(b)
			if err != nil {
				return
			}
			all = append(all, b[:n]...)
			if strings.Contains(string(all), "initialized") {
				got <- true
				return
			}
		}
	}()
	iw.Write(frame(dap(1, "initialize", M{})))
	select {
	case <-got:
	case <-time.After(10 * time.Second):
		os.Exit(1)
	}
}
''')

bug("C22-event-order", "C22", "a request to continue that ends in a stop",
    "the stop is announced before the request is acknowledged",
    [("dbg/dbg.go", """			err := l.reply(h.Seq, req.Command, "", nil, nil)
			if err != nil {
				return err
			}

			var tid *int
			if l.vm.tvm.Branch != nil {
				tid = new(int)
				*tid = l.vm.tvm.Branch.Id
			}

			return l.notify("stopped", dapStoppedEventParams{
				Reason:            "pause",
				AllThreadsStopped: yes,
				ThreadId:          tid,
			})""", """			var tid *int
			if l.vm.tvm.Branch != nil {
				tid = new(int)
				*tid = l.vm.tvm.Branch.Id
			}

			err := l.notify("stopped", dapStoppedEventParams{
				Reason:            "pause",
				AllThreadsStopped: yes,
				ThreadId:          tid,
			})
			if err != nil {
				return err
			}

			return l.reply(h.Seq, req.Command, "", nil, nil)""")],
    r'''
func main() {
	p := program("int 1\nint 2\n")
	ms := adapt(dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "pause", M{"threadId": 0}))
	n := len(ms)
	want(ms[n-1]["event"], "stopped")
}
''')

bug("C23-column-base", "C23", "a client that counts lines and columns from different numbers",
    "columns are reported on the basis agreed for lines",
    [("dbg/dbg.go", """			if ireq.Arguments.ColumnsStartAt1 == nil || *ireq.Arguments.ColumnsStartAt1 {
				l.cz = 1
			}""", """			if ireq.Arguments.ColumnsStartAt1 == nil || *ireq.Arguments.ColumnsStartAt1 {
				l.cz = l.lz
			}""")],
    r'''
func main() {
	p := program("int 1\nint 2\n")
	ms := adapt(dap(1, "initialize", M{"linesStartAt1": false, "columnsStartAt1": true}), dap(2, "launch", M{"program": p}), dap(3, "stackTrace", M{"threadId": 0}))
	f := body(ms, 3).(M)["stackFrames"].(A)[0].(M)
	want(f["column"], 1)
	want(f["line"], 0)
}
''')

bug("C23-scopes-switch", "C23", "looking at a branch that is not the current one between two steps",
    "looking at a branch changes which one runs next",
    [("dbg/dbg.go", """					if b.Id == sreq.Arguments.FrameId {
""", """					if b.Id == sreq.Arguments.FrameId {
						l.vm.tvm.Switch(b.Id)
""")],
    r'''
func main() {
	p := program("#pragma version 8\nint 1\nbz a\nint 2\nint 3\na:\nint 4\n")
	run := func(look bool) interface{} {
		m := []string{dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "next", M{"threadId": 0}), dap(4, "next", M{"threadId": 0}), dap(5, "next", M{"threadId": 0})}
		if look {
			m = append(m, dap(6, "scopes", M{"frameId": 1}))
		}
		m = append(m, dap(7, "pause", M{"threadId": 0}))
		ms := adapt(m...)
		return ms[len(ms)-1]["body"].(M)["threadId"]
	}
	want(run(true), run(false))
}
''')

bug("C23-frames", "C23", "a position inside two nested calls",
    "an outer frame is shown with the name of another one",
    [("dbg/dbg.go", """							line = f.Return
							name = f.Name""", """							line = f.Return
							if i == len(b.Frames)-1 {
								name = f.Name
							}""")],
    r'''
func main() {
	p := program("#pragma version 8\ncallsub f\nreturn\nf:\ncallsub g\nretsub\ng:\nint 1\nretsub\n")
	m := []string{dap(1, "initialize", M{}), dap(2, "launch", M{"program": p})}
	for i := 0; i < 7; i++ {
		m = append(m, dap(10+2*i, "next", M{"threadId": 0}), dap(11+2*i, "stackTrace", M{"threadId": 0}))
	}
	ms := adapt(m...)
	for i := 0; i < 7; i++ {
		fs := body(ms, 11+2*i).(M)["stackFrames"].(A)
		if len(fs) == 3 {
			seen := map[string]bool{}
			for _, f := range fs {
				seen[f.(M)["name"].(string)] = true
			}
			want(len(seen), 3)
			return
		}
	}
	os.Exit(2)
}
''')

bug("C24-clear", "C24", "a request that sets no breakpoint after one that set some",
    "removed breakpoints still stop the program",
    [("dbg/dbg.go", "				verified := l.vm.tvm.SetBreakpoints(lns)", "				verified := map[int]bool{}\n				if len(lns) > 0 {\n					verified = l.vm.tvm.SetBreakpoints(lns)\n				}")],
    r'''
func main() {
	p := program("#pragma version 8\nint 1\nint 2\nint 3\n")
	ms := adapt(dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "setBreakpoints", M{"source": M{"path": p}, "breakpoints": A{M{"line": 3}}}),
		dap(4, "setBreakpoints", M{"source": M{"path": p}, "breakpoints": A{}}), dap(5, "continue", M{"threadId": 0}))
	want(ms[len(ms)-1]["body"].(M)["hitBreakpointIds"], nil)
}
''')

bug("C24-switch-current", "C24", "a step of another branch than the current one",
    "a step is made by another branch than the one asked for",
    [("vm.go", """			v.Current = i
			v.Branch = b
			break""", """			if b.Line == ExitLine {
				v.Current = i
			}
			v.Branch = b
			break""")],
    r'''
func main() {
	p := program("#pragma version 8\nint 1\nbz a\nint 2\nint 3\na:\nint 4\nint 5\n")
	ms := adapt(dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "next", M{"threadId": 0}), dap(4, "next", M{"threadId": 0}),
		dap(5, "next", M{"threadId": 1}), dap(6, "stackTrace", M{"threadId": 0}), dap(7, "stackTrace", M{"threadId": 1}))
	want(body(ms, 6).(M)["stackFrames"].(A)[0].(M)["line"], 4)
	want(body(ms, 7).(M)["stackFrames"].(A)[0].(M)["line"], 8)
}
''')

bug("C24-dup-lines", "C24", "two breakpoints on one line",
    "a line asked for twice is not verified",
    [("dbg/dbg.go", """						Verified: verified[b.id], // TODO: line number used as id - review the design""", """						Verified: verified[b.id] && len(bs) < len(verified),""")],
    r'''
func main() {
	p := program("#pragma version 8\nint 1\nint 2\nint 3\n")
	ms := adapt(dap(1, "initialize", M{}), dap(2, "launch", M{"program": p}), dap(3, "setBreakpoints", M{"source": M{"path": p}, "breakpoints": A{M{"line": 2}, M{"line": 2}, M{"line": 3}}}))
	for _, b := range body(ms, 3).(M)["breakpoints"].(A) {
		want(b.(M)["verified"], true)
	}
}
''')
