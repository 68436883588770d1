// Builds expressions described as JSON with the exported constructors,
// compiles them and reports what comes out.
package main

import (
	"bufio"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"github.com/dragmz/teal"
)

var ready = map[string]teal.Expr{
	"Err": teal.Err,
	"Sha3256": teal.Sha3256,
	"Sha256": teal.Sha256,
	"Keccak256": teal.Keccak256,
	"Sha512256": teal.Sha512256,
	"ED25519Verify": teal.ED25519Verify,
	"PlusOp": teal.PlusOp,
	"MinusOp": teal.MinusOp,
	"Div": teal.Div,
	"Mul": teal.Mul,
	"Lt": teal.Lt,
	"Gt": teal.Gt,
	"Le": teal.Le,
	"Ge": teal.Ge,
	"And": teal.And,
	"Or": teal.Or,
	"Eq": teal.Eq,
	"Neq": teal.Neq,
	"Not": teal.Not,
	"Len": teal.Len,
	"Itob": teal.Itob,
	"Btoi": teal.Btoi,
	"Modulo": teal.Modulo,
	"BitOr": teal.BitOr,
	"BitAnd": teal.BitAnd,
	"BitXor": teal.BitXor,
	"BitNot": teal.BitNot,
	"Mulw": teal.Mulw,
	"Addw": teal.Addw,
	"DivModw": teal.DivModw,
	"Intc0": teal.Intc0,
	"Intc1": teal.Intc1,
	"Intc2": teal.Intc2,
	"Intc3": teal.Intc3,
	"Bytec0": teal.Bytec0,
	"Bytec1": teal.Bytec1,
	"Bytec2": teal.Bytec2,
	"Bytec3": teal.Bytec3,
	"Arg0": teal.Arg0,
	"Arg1": teal.Arg1,
	"Arg2": teal.Arg2,
	"Arg3": teal.Arg3,
	"BoxGet": teal.BoxGet,
	"BoxPut": teal.BoxPut,
	"BoxDel": teal.BoxDel,
	"BoxLen": teal.BoxLen,
	"BoxCreate": teal.BoxCreate,
	"BoxReplace": teal.BoxReplace,
	"BoxExtract": teal.BoxExtract,
	"Empty": teal.Empty,
	"AppLocalGet": teal.AppLocalGet,
	"AppLocalPut": teal.AppLocalPut,
	"AppGlobalPut": teal.AppGlobalPut,
	"AppGlobalGet": teal.AppGlobalGet,
	"AppGlobalGetEx": teal.AppGlobalGetEx,
	"AppLocalGetEx": teal.AppLocalGetEx,
	"AppLocalDel": teal.AppLocalDel,
	"RetSub": teal.RetSub,
	"Return": teal.Return,
	"Assert": teal.Assert,
	"Dup": teal.Dup,
	"Extract16Bits": teal.Extract16Bits,
	"Extract32Bits": teal.Extract32Bits,
	"Extract64Bits": teal.Extract64Bits,
	"Replace3": teal.Replace3,
	"Ed25519VerifyBare": teal.Ed25519VerifyBare,
	"BitLen": teal.BitLen,
	"Expw": teal.Expw,
	"Args": teal.Args,
	"Gloadss": teal.Gloadss,
	"SetByte": teal.SetByte,
	"Concat": teal.Concat,
	"ItxnBegin": teal.ItxnBegin,
	"ItxnSubmit": teal.ItxnSubmit,
	"Pop": teal.Pop,
	"Swap": teal.Swap,
	"Sqrt": teal.Sqrt,
	"Balance": teal.Balance,
	"Exp": teal.Exp,
	"Log": teal.Log,
	"Extract3": teal.Extract3,
	"ExtractUint64": teal.ExtractUint64,
	"ItxnNext": teal.ItxnNext,
	"MinBalanceOp": teal.MinBalanceOp,
	"Bzero": teal.Bzero,
	"GetByte": teal.GetByte,
	"Substring3": teal.Substring3,
	"ShiftLeft": teal.ShiftLeft,
	"ShiftRight": teal.ShiftRight,
	"GetBit": teal.GetBit,
	"SetBit": teal.SetBit,
	"BytesMinus": teal.BytesMinus,
	"BytesMul": teal.BytesMul,
	"BytesDiv": teal.BytesDiv,
	"BytesPlus": teal.BytesPlus,
	"Gaids": teal.Gaids,
	"Loads": teal.Loads,
	"Stores": teal.Stores,
	"Dup2": teal.Dup2,
	"Divw": teal.Divw,
	"Select": teal.Select,
	"Bgteq": teal.Bgteq,
	"BytesGt": teal.BytesGt,
	"BytesLe": teal.BytesLe,
	"BytesGe": teal.BytesGe,
	"BytesEq": teal.BytesEq,
	"BytesNeq": teal.BytesNeq,
	"BytesModulo": teal.BytesModulo,
	"BytesBitOr": teal.BytesBitOr,
	"BytesBitAnd": teal.BytesBitAnd,
	"Bsqrt": teal.Bsqrt,
	"AppGlobalDel": teal.AppGlobalDel,
	"BytesLt": teal.BytesLt,
	"Band": teal.Band,
	"BytesBitXor": teal.BytesBitXor,
	"BytesBitNot": teal.BytesBitNot,
	"BytesZero": teal.BytesZero,
	"AppOptedIn": teal.AppOptedIn,
}

type node struct {
	K   string `json:"k"`
	N   string `json:"n"`
	V   string `json:"v"`
	W   string `json:"w"`
	B   []int  `json:"b"`
	Src string `json:"t"` // base64
	Ls  []struct {
		N string `json:"n"`
	} `json:"ls"`
	Xs []node `json:"xs"`
	Ps []node `json:"ps"` // the prototype, if any
}

type input struct {
	Id    int    `json:"id"`
	Defs  []node `json:"defs"`
	Roots []node `json:"roots"`
}

type builder struct {
	owned  []func()
	labels map[string]*teal.LabelExpr
	funcs  map[string]*teal.FuncExpr
	defs   []teal.Expr
}

func u64(s string) uint64 {
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return v
}

func i8(s string) int8 {
	v, err := strconv.ParseInt(s, 10, 8)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return int8(v)
}

func (b *builder) label(n string) *teal.LabelExpr {
	l, ok := b.labels[n]
	if !ok {
		l = teal.Label(n)
		b.labels[n] = l
	}
	return l
}

// the slices given to the constructors have room left, which their owner uses
func (b *builder) own(s []teal.Expr) {
	b.owned = append(b.owned, func() {
		for i := len(s); i < cap(s); i++ {
			s[:cap(s)][i] = teal.Comment("owner")
		}
	})
}

func (b *builder) use() {
	for _, f := range b.owned {
		f()
	}
}

func (b *builder) all(ns []node) []teal.Expr {
	r := make([]teal.Expr, 0, len(ns)+4)
	defer func() { b.own(r) }()
	for _, n := range ns {
		r = append(r, b.build(n))
	}
	return r
}

func (b *builder) build(n node) teal.Expr {
	ls := make([]*teal.LabelExpr, 0, len(n.Ls)+2)
	defer func() {
		b.owned = append(b.owned, func() {
			for i := len(ls); i < cap(ls); i++ {
				ls[:cap(ls)][i] = teal.Label("owner")
			}
		})
	}()
	for _, l := range n.Ls {
		ls = append(ls, b.label(l.N))
	}
	u8 := func(s string) uint8 { return uint8(u64(s)) }
	fun := func() *teal.FuncExpr {
		f, ok := b.funcs[n.N]
		if !ok {
			f = &teal.FuncExpr{Label: b.label(n.N)}
			b.funcs[n.N] = f
		}
		return f
	}
	switch n.K {
	case "ready":
		e, ok := ready[n.N]
		if !ok {
			panic("harness: " + n.N)
		}
		return e
	case "ref":
		return b.defs[u64(n.V)-1]
	case "text":
		bs, _ := base64.StdEncoding.DecodeString(n.Src)
		return teal.Process(string(bs)).Listing[1]
	case "pragma":
		return &teal.PragmaExpr{Version: u64(n.V)}
	case "label":
		return b.label(n.N)
	case "int":
		return teal.Int(u64(n.V))
	case "string":
		bs := []byte{}
		for _, x := range n.B {
			bs = append(bs, byte(x))
		}
		return teal.StringBytes(string(bs))
	case "comment":
		bs, _ := base64.StdEncoding.DecodeString(n.Src)
		return teal.Comment(string(bs))
	case "b":
		return teal.B(b.label(n.N))
	case "bz":
		return teal.Bz(b.label(n.N))
	case "bnz":
		return teal.Bnz(b.label(n.N))
	case "callsub":
		return teal.CallSub(b.label(n.N))
	case "callfunc":
		return teal.CallSub(fun())
	case "match":
		return teal.Match(ls...)
	case "switch":
		return teal.Switch(ls...)
	case "load":
		return teal.Load(u8(n.V))
	case "store":
		return teal.Store(u8(n.V))
	case "cover":
		return teal.Cover(u8(n.V))
	case "uncover":
		return teal.Uncover(u8(n.V))
	case "frame_dig":
		return teal.FrameDig(i8(n.V))
	case "proto":
		return teal.Proto(u8(n.V), u8(n.W))
	case "txn":
		return teal.Txn(teal.TxnField(u64(n.V)))
	case "gtxns":
		return teal.Gtxns(teal.TxnField(u64(n.V)))
	case "itxn_field":
		return teal.ItxnField(teal.TxnField(u64(n.V)))
	case "txna":
		return teal.Txna(teal.TxnField(u64(n.V)), u8(n.W))
	case "apparg":
		return teal.Arg(u8(n.V))
	case "global":
		return teal.Global(teal.GlobalField(u64(n.V)))
	case "plus":
		return teal.Plus(b.build(n.Xs[0]), b.build(n.Xs[1]))
	case "minus":
		return teal.Minus(b.build(n.Xs[0]), b.build(n.Xs[1]))
	case "asserteq":
		return teal.AssertEq(b.build(n.Xs[0]), b.build(n.Xs[1]))
	case "assertlteq":
		return teal.AssertLtEq(b.build(n.Xs[0]), b.build(n.Xs[1]))
	case "assertlen":
		return teal.AssertLen(b.build(n.Xs[0]), u64(n.V))
	case "assertinrange":
		return teal.AssertInRange(b.build(n.Xs[0]), u64(n.V), u64(n.W))
	case "matchlabels":
		return teal.MatchLabels(b.build(n.Xs[0]), ls...)
	case "itxn":
		return teal.Itxn(b.all(n.Xs)...)
	case "block":
		return teal.Block(b.all(n.Xs)...)
	case "named":
		return &teal.NestedExpr{Label: b.label(n.N), Body: b.all(n.Xs)}
	case "list":
		return b.all(n.Xs)
	case "program":
		return teal.Program(b.all(n.Xs))
	case "listing":
		c := teal.Compile(b.all(n.Xs))
		l := append(make(teal.Listing, 0, len(c)+4), c...)
		b.owned = append(b.owned, func() {
			for i := len(l); i < cap(l); i++ {
				l[:cap(l)][i] = teal.Comment("owner")
			}
		})
		return l
	case "func":
		f := fun()
		if len(n.Ps) > 0 {
			f.Proto = b.build(n.Ps[0]).(*teal.ProtoExpr)
		}
		f.Block = teal.Block(b.all(n.Xs)...)
		return f
	case "declared":
		f := fun()
		if len(n.Ps) > 0 {
			f.Proto = b.build(n.Ps[0]).(*teal.ProtoExpr)
		}
		return f
	case "call":
		return fun().Call(b.all(n.Xs)...)
	}
	panic("harness: unknown node " + n.K)
}

func b64(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }

func compile(b *builder, e teal.Expr) (o map[string]interface{}) {
	o = map[string]interface{}{}
	defer func() {
		if x := recover(); x != nil {
			o = map[string]interface{}{"panic": fmt.Sprint(x)}
		}
	}()
	b.use()
	l := teal.Compile([]teal.Expr{e})
	b.use()
	lint := []interface{}{}
	for _, d := range l.Lint() {
		lint = append(lint, []interface{}{d.Rule(), d.Line(), int(d.Severity())})
	}
	l.Optimize()
	ops := []string{}
	for _, op := range l {
		ops = append(ops, b64(op.String()))
	}
	o["ops"] = ops
	o["lint"] = lint
	o["text"] = b64(l.String())
	o["program"] = b64(teal.Program{e}.String())
	return o
}

func handle(in input) (o map[string]interface{}) {
	defer func() {
		if x := recover(); x != nil {
			o = map[string]interface{}{"panic": fmt.Sprint(x)}
		}
	}()
	b := &builder{labels: map[string]*teal.LabelExpr{}, funcs: map[string]*teal.FuncExpr{}}
	for _, d := range in.Defs {
		b.defs = append(b.defs, b.build(d))
	}
	es := b.all(in.Roots)
	rs := []interface{}{}
	for _, e := range es {
		rs = append(rs, compile(b, e))
	}
	return map[string]interface{}{"roots": rs}
}

func main() {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<30)
	w := bufio.NewWriter(os.Stdout)
	defer w.Flush()
	for sc.Scan() {
		var in input
		if err := json.Unmarshal(sc.Bytes(), &in); err != nil {
			fmt.Fprintln(os.Stderr, "bad input:", err)
			os.Exit(3)
		}
		o := handle(in)
		o["id"] = in.Id
		b, _ := json.Marshal(o)
		w.Write(b)
		w.WriteString("\n")
		w.Flush()
	}
}
