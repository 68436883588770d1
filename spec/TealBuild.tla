----------------------------- MODULE TealBuild -----------------------------
(***************************************************************************)
(* Programs composed in Go.  An expression is a tree; a leaf is one        *)
(* instruction, every other node stands for a sequence of expressions.     *)
(* Nodes are records with k the constructor and, as it needs them, n a     *)
(* name, v and w numerals, b bytes, ls labels, xs parts.                   *)
(***************************************************************************)
EXTENDS TealScope

\* the ready-made instructions
ReadyWord ==
  "Err" :> "err"
  @@ "Sha3256" :> "sha3_256"
  @@ "Sha256" :> "sha256"
  @@ "Keccak256" :> "keccak256"
  @@ "Sha512256" :> "sha512_256"
  @@ "ED25519Verify" :> "ed25519verify"
  @@ "PlusOp" :> "+"
  @@ "MinusOp" :> "-"
  @@ "Div" :> "/"
  @@ "Mul" :> "*"
  @@ "Lt" :> "<"
  @@ "Gt" :> ">"
  @@ "Le" :> "<="
  @@ "Ge" :> ">="
  @@ "And" :> "&&"
  @@ "Or" :> "||"
  @@ "Eq" :> "=="
  @@ "Neq" :> "!="
  @@ "Not" :> "!"
  @@ "Len" :> "len"
  @@ "Itob" :> "itob"
  @@ "Btoi" :> "btoi"
  @@ "Modulo" :> "%"
  @@ "BitOr" :> "|"
  @@ "BitAnd" :> "&"
  @@ "BitXor" :> "^"
  @@ "BitNot" :> "~"
  @@ "Mulw" :> "mulw"
  @@ "Addw" :> "addw"
  @@ "DivModw" :> "divmodw"
  @@ "Intc0" :> "intc_0"
  @@ "Intc1" :> "intc_1"
  @@ "Intc2" :> "intc_2"
  @@ "Intc3" :> "intc_3"
  @@ "Bytec0" :> "bytec_0"
  @@ "Bytec1" :> "bytec_1"
  @@ "Bytec2" :> "bytec_2"
  @@ "Bytec3" :> "bytec_3"
  @@ "Arg0" :> "arg_0"
  @@ "Arg1" :> "arg_1"
  @@ "Arg2" :> "arg_2"
  @@ "Arg3" :> "arg_3"
  @@ "BoxGet" :> "box_get"
  @@ "BoxPut" :> "box_put"
  @@ "BoxDel" :> "box_del"
  @@ "BoxLen" :> "box_len"
  @@ "BoxCreate" :> "box_create"
  @@ "BoxReplace" :> "box_replace"
  @@ "BoxExtract" :> "box_extract"
  @@ "Empty" :> ""
  @@ "AppLocalGet" :> "app_local_get"
  @@ "AppLocalPut" :> "app_local_put"
  @@ "AppGlobalPut" :> "app_global_put"
  @@ "AppGlobalGet" :> "app_global_get"
  @@ "AppGlobalGetEx" :> "app_global_get_ex"
  @@ "AppLocalGetEx" :> "app_local_get_ex"
  @@ "AppLocalDel" :> "app_local_del"
  @@ "RetSub" :> "retsub"
  @@ "Return" :> "return"
  @@ "Assert" :> "assert"
  @@ "Dup" :> "dup"
  @@ "Extract16Bits" :> "extract_uint16"
  @@ "Extract32Bits" :> "extract_uint32"
  @@ "Extract64Bits" :> "extract_uint64"
  @@ "Replace3" :> "replace3"
  @@ "Ed25519VerifyBare" :> "ed25519verify_bare"
  @@ "BitLen" :> "bitlen"
  @@ "Expw" :> "expw"
  @@ "Args" :> "args"
  @@ "Gloadss" :> "gloadss"
  @@ "SetByte" :> "setbyte"
  @@ "Concat" :> "concat"
  @@ "ItxnBegin" :> "itxn_begin"
  @@ "ItxnSubmit" :> "itxn_submit"
  @@ "Pop" :> "pop"
  @@ "Swap" :> "swap"
  @@ "Sqrt" :> "sqrt"
  @@ "Balance" :> "balance"
  @@ "Exp" :> "exp"
  @@ "Log" :> "log"
  @@ "Extract3" :> "extract3"
  @@ "ExtractUint64" :> "extract_uint64"
  @@ "ItxnNext" :> "itxn_next"
  @@ "MinBalanceOp" :> "min_balance"
  @@ "Bzero" :> "bzero"
  @@ "GetByte" :> "getbyte"
  @@ "Substring3" :> "substring3"
  @@ "ShiftLeft" :> "shl"
  @@ "ShiftRight" :> "shr"
  @@ "GetBit" :> "getbit"
  @@ "SetBit" :> "setbit"
  @@ "BytesMinus" :> "b-"
  @@ "BytesMul" :> "b*"
  @@ "BytesDiv" :> "b/"
  @@ "BytesPlus" :> "b+"
  @@ "Gaids" :> "gaids"
  @@ "Loads" :> "loads"
  @@ "Stores" :> "stores"
  @@ "Dup2" :> "dup2"
  @@ "Divw" :> "divw"
  @@ "Select" :> "select"
  @@ "Bgteq" :> "b>="
  @@ "BytesGt" :> "b>"
  @@ "BytesLe" :> "b<="
  @@ "BytesGe" :> "b>="
  @@ "BytesEq" :> "b=="
  @@ "BytesNeq" :> "b!="
  @@ "BytesModulo" :> "b%"
  @@ "BytesBitOr" :> "b|"
  @@ "BytesBitAnd" :> "b&"
  @@ "Bsqrt" :> "bsqrt"
  @@ "AppGlobalDel" :> "app_global_del"
  @@ "BytesLt" :> "b<"
  @@ "Band" :> "b&"
  @@ "BytesBitXor" :> "b^"
  @@ "BytesBitNot" :> "b~"
  @@ "BytesZero" :> "bzero"
  @@ "AppOptedIn" :> "app_opted_in"

AppArgs == "26"  \* the field ApplicationArgs

BytesOperand(bs) == [s |-> "", b |-> bs]
Labels(ls) == [i \in 1..Len(ls) |-> Op0(ls[i].n)]

IsLeaf(n) == n.k \in {"ready", "text", "pragma", "label", "int", "string", "comment", "b", "bz", "bnz", "callsub",
  "callfunc", "match", "switch", "load", "store", "cover", "uncover", "frame_dig", "proto", "txn", "gtxns",
  "itxn_field", "txna", "apparg", "global"}

\* the instruction a leaf stands for
Leaf(n) ==
  CASE n.k = "ready" -> (IF ReadyWord[n.n] = "" THEN EmptyEntry ELSE Entry(ReadyWord[n.n], << >>))
    [] n.k = "text" -> AnalyseLines(LinesOf(Lex(n.src).toks), {}).list[2]
    [] n.k = "pragma" -> Entry("#pragma", << Op0(n.v) >>)
    [] n.k = "label" -> Entry(":", << Op0(n.n) >>)
    [] n.k = "string" -> Entry("byte", << BytesOperand(n.b) >>)
    [] n.k = "comment" -> EmptyEntry
    [] n.k \in {"b", "bz", "bnz", "callsub"} -> Entry(n.k, << Op0(n.n) >>)
    [] n.k = "callfunc" -> Entry("callsub", << Op0(n.n) >>)
    [] n.k \in {"match", "switch"} -> Entry(n.k, Labels(n.ls))
    [] n.k \in {"int", "load", "store", "cover", "uncover", "frame_dig", "txn", "gtxns", "itxn_field", "global"} ->
         Entry(n.k, << Op0(n.v) >>)
    [] n.k \in {"proto", "txna"} -> Entry(n.k, << Op0(n.v), Op0(n.w) >>)
    [] n.k = "apparg" -> Entry("txna", << Op0(AppArgs), Op0(n.v) >>)

Rdy(w) == [k |-> "ready", n |-> w]
IntN(v) == [k |-> "int", v |-> v]
Str1(l) == [k |-> "string", b |-> l.b]
Branch(l) == [k |-> "label", n |-> l]

\* what a node that is no leaf stands for
Parts(n, defs) ==
  CASE n.k = "ref" -> << defs[ParseDecStr(n.v)] >>
    [] n.k \in {"block", "list", "program", "listing"} -> n.xs
    [] n.k = "named" -> << Branch(n.n) >> \o n.xs
    [] n.k = "plus" -> << n.xs[1], n.xs[2], Rdy("PlusOp") >>
    [] n.k = "minus" -> << n.xs[1], n.xs[2], Rdy("MinusOp") >>
    [] n.k = "asserteq" -> << n.xs[1], n.xs[2], Rdy("Eq"), Rdy("Assert") >>
    [] n.k = "assertlteq" -> << n.xs[1], n.xs[2], Rdy("Le"), Rdy("Assert") >>
    [] n.k = "assertlen" -> << n.xs[1], Rdy("Len"), IntN(n.v), Rdy("Eq"), Rdy("Assert") >>
    [] n.k = "assertinrange" -> << n.xs[1], IntN(n.v), Rdy("Ge"), n.xs[1], IntN(n.w), Rdy("Lt"), Rdy("And"), Rdy("Assert") >>
    [] n.k = "matchlabels" -> [i \in 1..Len(n.ls) |-> Str1(n.ls[i])] \o << n.xs[1], [k |-> "match", ls |-> n.ls] >>
    [] n.k = "itxn" -> << Rdy("ItxnBegin") >> \o n.xs \o << Rdy("ItxnSubmit") >>
    [] n.k = "func" -> << Branch(n.n) >> \o n.ps \o n.xs \o << Rdy("RetSub") >>
    [] n.k = "declared" -> << Branch(n.n) >> \o n.ps \o << Rdy("RetSub") >>
    [] n.k = "call" -> n.xs \o << [k |-> "callsub", n |-> n.n] >>

\* what the linter says about a listing: rule, line, severity
LintOf(list) ==
  LET f == LintFindings([list |-> list, lines |-> [i \in 1..Len(list) |-> << >>]])
  IN [i \in 1..Len(f) |-> << f[i].rule, f[i].l, f[i].sev >>]
=============================================================================
