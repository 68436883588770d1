----------------------------- MODULE TealTables -----------------------------
(***************************************************************************)
(* The instruction, field and constant tables of the language.             *)
(*  app, sig  lowest version in application / logicsig mode (0: not        *)
(*            available in that mode)                                      *)
(*  imm       immediates: kind k, optional opt, repeated arr               *)
(*  pops      operand types, deepest first; push result types, "field" is  *)
(*            the type of the field given by immediate number fld          *)
(*  eff       "std", or the name of an instruction with its own effect     *)
(*  cost      constant, by version, by field, or by operand length         *)
(*  alt       the instruction meant when n immediates are given            *)
(* Written by gen/mktables.py, committed, never regenerated by a check.    *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, TLC

\* entries by name (written with @@ so that TLC computes the tables once)
Index(list) == FoldLeft(LAMBDA f, e : f @@ (e.name :> e), << >>, list)

OpList == <<
  [name |-> "!", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "!=", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "any", "any" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "%", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "&", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "&&", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "*", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "+", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "-", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "/", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "<", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "<=", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "==", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "any", "any" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> ">", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> ">=", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "^", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "acct_params_get", app |-> 6, sig |-> 0, imm |-> << [k |-> "acct", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "any" >>, push |-> << "field", "uint64" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "addr", app |-> 1, sig |-> 1, imm |-> << [k |-> "addr", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "addr", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "addw", app |-> 2, sig |-> 2, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_global_del", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_global_get", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_global_get_ex", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "uint64", "bytes" >>, push |-> << "any", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_global_put", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes", "any" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_local_del", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any", "bytes" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_local_get", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any", "bytes" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_local_get_ex", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any", "uint64", "bytes" >>, push |-> << "any", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_local_put", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any", "bytes", "any" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_opted_in", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "app_params_get", app |-> 5, sig |-> 0, imm |-> << [k |-> "appparams", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field", "uint64" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "arg", app |-> 0, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "arg_0", app |-> 0, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "arg_1", app |-> 0, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "arg_2", app |-> 0, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "arg_3", app |-> 0, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "args", app |-> 0, sig |-> 5, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "assert", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "asset_holding_get", app |-> 2, sig |-> 0, imm |-> << [k |-> "holding", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "any", "uint64" >>, push |-> << "field", "uint64" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "asset_params_get", app |-> 2, sig |-> 0, imm |-> << [k |-> "aparams", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field", "uint64" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b", app |-> 2, sig |-> 2, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "b", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b!=", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b%", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 20], alt |-> << >>],
  [name |-> "b&", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 6], alt |-> << >>],
  [name |-> "b*", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 20], alt |-> << >>],
  [name |-> "b+", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 10], alt |-> << >>],
  [name |-> "b-", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 10], alt |-> << >>],
  [name |-> "b/", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 20], alt |-> << >>],
  [name |-> "b<", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b<=", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b==", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b>", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b>=", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b^", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 6], alt |-> << >>],
  [name |-> "balance", app |-> 2, sig |-> 0, imm |-> << >>,
   pops |-> << "any" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "base64_decode", app |-> 7, sig |-> 7, imm |-> << [k |-> "b64enc", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "len", at |-> 0, base |-> 1, per |-> 16, unit |-> 1], alt |-> << >>],
  [name |-> "bitlen", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "any" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "block", app |-> 7, sig |-> 7, imm |-> << [k |-> "block", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bnz", app |-> 1, sig |-> 1, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "bnz", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_create", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_del", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_extract", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes", "uint64", "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_get", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_len", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "uint64", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_put", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "box_replace", app |-> 8, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes", "uint64", "bytes" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bsqrt", app |-> 6, sig |-> 6, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 40], alt |-> << >>],
  [name |-> "btoi", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bury", app |-> 8, sig |-> 8, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "bury", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "byte", app |-> 1, sig |-> 1, imm |-> << [k |-> "bytes", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "byte", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytec", app |-> 1, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytec_0", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytec_1", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytec_2", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytec_3", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bytecblock", app |-> 1, sig |-> 1, imm |-> << [k |-> "bytes", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "bytecblock", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bz", app |-> 2, sig |-> 2, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "bz", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "bzero", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "b|", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 6], alt |-> << >>],
  [name |-> "b~", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 4], alt |-> << >>],
  [name |-> "callsub", app |-> 4, sig |-> 4, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "callsub", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "concat", app |-> 2, sig |-> 2, imm |-> << >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "cover", app |-> 5, sig |-> 5, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "cover", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "dig", app |-> 3, sig |-> 3, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "dig", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "divmodw", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64", "uint64", "uint64", "uint64" >>, push |-> << "uint64", "uint64", "uint64", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 20], alt |-> << >>],
  [name |-> "divw", app |-> 6, sig |-> 6, imm |-> << >>,
   pops |-> << "uint64", "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "dup", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "dup", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "dup2", app |-> 2, sig |-> 2, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "dup2", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "dupn", app |-> 8, sig |-> 8, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "dupn", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "ec_add", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 10, 10, 20, 20 >>], alt |-> << >>],
  [name |-> "ec_map_to", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 100, 100, 200, 200 >>], alt |-> << >>],
  [name |-> "ec_multi_exp", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 100, 100, 200, 200 >>], alt |-> << >>],
  [name |-> "ec_pairing_check", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 1000, 1000, 2000, 2000 >>], alt |-> << >>],
  [name |-> "ec_scalar_mul", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 100, 100, 200, 200 >>], alt |-> << >>],
  [name |-> "ec_subgroup_check", app |-> 9, sig |-> 9, imm |-> << [k |-> "ec", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 100, 100, 200, 200 >>], alt |-> << >>],
  [name |-> "ecdsa_pk_decompress", app |-> 5, sig |-> 5, imm |-> << [k |-> "ecdsa", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "bytes", "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 650, 2400 >>], alt |-> << >>],
  [name |-> "ecdsa_pk_recover", app |-> 5, sig |-> 5, imm |-> << [k |-> "ecdsa", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "uint64", "bytes", "bytes" >>, push |-> << "bytes", "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 2000], alt |-> << >>],
  [name |-> "ecdsa_verify", app |-> 5, sig |-> 5, imm |-> << [k |-> "ecdsa", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes", "bytes", "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "field", tab |-> << 1700, 2500 >>], alt |-> << >>],
  [name |-> "ed25519verify", app |-> 5, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes", "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1900], alt |-> << >>],
  [name |-> "ed25519verify_bare", app |-> 7, sig |-> 7, imm |-> << >>,
   pops |-> << "bytes", "bytes", "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1900], alt |-> << >>],
  [name |-> "err", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "err", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "exp", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "expw", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 10], alt |-> << >>],
  [name |-> "extract", app |-> 5, sig |-> 5, imm |-> << [k |-> "u8", opt |-> TRUE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << [n |-> 0, op |-> "extract3"] >>],
  [name |-> "extract3", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << "bytes", "uint64", "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "extract_uint16", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << "bytes", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "extract_uint32", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << "bytes", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "extract_uint64", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << "bytes", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "frame_bury", app |-> 8, sig |-> 8, imm |-> << [k |-> "i8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "frame_bury", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "frame_dig", app |-> 8, sig |-> 8, imm |-> << [k |-> "i8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "frame_dig", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gaid", app |-> 4, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gaids", app |-> 4, sig |-> 0, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "getbit", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "any", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "getbyte", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "bytes", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gitxn", app |-> 6, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txn", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gitxna", app |-> 6, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txna", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gitxnas", app |-> 6, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txna", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gload", app |-> 4, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gloads", app |-> 4, sig |-> 0, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gloadss", app |-> 6, sig |-> 0, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "global", app |-> 1, sig |-> 1, imm |-> << [k |-> "global", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gtxn", app |-> 1, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txn", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> TRUE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << [n |-> 3, op |-> "gtxna"] >>],
  [name |-> "gtxna", app |-> 2, sig |-> 2, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txna", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gtxnas", app |-> 5, sig |-> 5, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "txna", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 2,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gtxns", app |-> 3, sig |-> 3, imm |-> << [k |-> "txn", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> TRUE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << [n |-> 2, op |-> "gtxnsa"] >>],
  [name |-> "gtxnsa", app |-> 3, sig |-> 3, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "gtxnsas", app |-> 5, sig |-> 5, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "int", app |-> 1, sig |-> 1, imm |-> << [k |-> "const", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "int", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intc", app |-> 1, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intc_0", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intc_1", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intc_2", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intc_3", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "intcblock", app |-> 1, sig |-> 1, imm |-> << [k |-> "u64", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "intcblock", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itob", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxn", app |-> 5, sig |-> 0, imm |-> << [k |-> "txn", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxn_begin", app |-> 5, sig |-> 0, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxn_field", app |-> 5, sig |-> 0, imm |-> << [k |-> "itxn", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "any" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxn_next", app |-> 6, sig |-> 0, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxn_submit", app |-> 5, sig |-> 0, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxna", app |-> 5, sig |-> 0, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "itxnas", app |-> 6, sig |-> 0, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "json_ref", app |-> 7, sig |-> 7, imm |-> << [k |-> "json", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "len", at |-> 1, base |-> 25, per |-> 7, unit |-> 2], alt |-> << >>],
  [name |-> "keccak256", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "ver", one |-> 26, more |-> 130], alt |-> << >>],
  [name |-> "len", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "load", app |-> 1, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "load", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "loads", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "log", app |-> 5, sig |-> 0, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "match", app |-> 8, sig |-> 8, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "match", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "method", app |-> 1, sig |-> 1, imm |-> << [k |-> "sig", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "method", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "min_balance", app |-> 3, sig |-> 0, imm |-> << >>,
   pops |-> << "any" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "mulw", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "pop", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "any" >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "popn", app |-> 8, sig |-> 8, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "popn", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "proto", app |-> 8, sig |-> 8, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "proto", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "pushbytes", app |-> 3, sig |-> 3, imm |-> << [k |-> "bytes", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "pushbytes", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "pushbytess", app |-> 8, sig |-> 8, imm |-> << [k |-> "bytes", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "pushbytess", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "pushint", app |-> 3, sig |-> 3, imm |-> << [k |-> "u64", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "pushint", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "pushints", app |-> 8, sig |-> 8, imm |-> << [k |-> "u64", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "pushints", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "replace", app |-> 7, sig |-> 7, imm |-> << [k |-> "u8", opt |-> TRUE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << [n |-> 0, op |-> "replace3"], [n |-> 1, op |-> "replace2"] >>],
  [name |-> "replace2", app |-> 7, sig |-> 7, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "replace3", app |-> 7, sig |-> 7, imm |-> << >>,
   pops |-> << "bytes", "uint64", "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "retsub", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "retsub", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "return", app |-> 2, sig |-> 2, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "return", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "select", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "any", "any", "uint64" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "setbit", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "any", "uint64", "uint64" >>, push |-> << "any" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "setbyte", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << "bytes", "uint64", "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "sha256", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "ver", one |-> 7, more |-> 35], alt |-> << >>],
  [name |-> "sha3_256", app |-> 7, sig |-> 7, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 130], alt |-> << >>],
  [name |-> "sha512_256", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "ver", one |-> 9, more |-> 45], alt |-> << >>],
  [name |-> "shl", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "shr", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "sqrt", app |-> 4, sig |-> 4, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 4], alt |-> << >>],
  [name |-> "store", app |-> 1, sig |-> 1, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "store", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "stores", app |-> 5, sig |-> 5, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "stores", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "substring", app |-> 2, sig |-> 2, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "substring3", app |-> 2, sig |-> 2, imm |-> << >>,
   pops |-> << "bytes", "uint64", "uint64" >>, push |-> << "bytes" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "swap", app |-> 3, sig |-> 3, imm |-> << >>,
   pops |-> << >>, push |-> << >>, eff |-> "swap", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "switch", app |-> 8, sig |-> 8, imm |-> << [k |-> "label", opt |-> FALSE, arr |-> TRUE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "switch", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "txn", app |-> 1, sig |-> 1, imm |-> << [k |-> "txn", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> TRUE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << [n |-> 2, op |-> "txna"] >>],
  [name |-> "txna", app |-> 2, sig |-> 2, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE], [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "txnas", app |-> 5, sig |-> 5, imm |-> << [k |-> "txna", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "uint64" >>, push |-> << "field" >>, eff |-> "std", fld |-> 1,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "uncover", app |-> 5, sig |-> 5, imm |-> << [k |-> "u8", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << >>, push |-> << >>, eff |-> "uncover", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "vrf_verify", app |-> 7, sig |-> 7, imm |-> << [k |-> "vrf", opt |-> FALSE, arr |-> FALSE] >>,
   pops |-> << "bytes", "bytes", "bytes" >>, push |-> << "bytes", "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 5700], alt |-> << >>],
  [name |-> "|", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "||", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64", "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>],
  [name |-> "~", app |-> 1, sig |-> 1, imm |-> << >>,
   pops |-> << "uint64" >>, push |-> << "uint64" >>, eff |-> "std", fld |-> 0,
   cost |-> [k |-> "const", n |-> 1], alt |-> << >>] >>

OpNames == {OpList[i].name : i \in 1..Len(OpList)}
OpOf == Index(OpList)

FieldList == <<
  [kind |-> "txn", tab |-> <<
    [name |-> "Sender", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "Fee", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "FirstValid", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "FirstValidTime", type |-> "uint64", arr |-> FALSE, ver |-> 7, itx |-> 0],
    [name |-> "LastValid", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "Note", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "Lease", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "Receiver", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "Amount", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "CloseRemainderTo", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "VotePK", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "SelectionPK", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "VoteFirst", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "VoteLast", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "VoteKeyDilution", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 6],
    [name |-> "Type", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "TypeEnum", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "XferAsset", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "AssetAmount", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "AssetSender", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "AssetReceiver", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "AssetCloseTo", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 5],
    [name |-> "GroupIndex", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "TxID", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "ApplicationID", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 6],
    [name |-> "OnCompletion", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 6],
    [name |-> "ApplicationArgs", type |-> "bytes", arr |-> TRUE, ver |-> 2, itx |-> 6],
    [name |-> "NumAppArgs", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "Accounts", type |-> "bytes", arr |-> TRUE, ver |-> 2, itx |-> 6],
    [name |-> "NumAccounts", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "ApprovalProgram", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 6],
    [name |-> "ClearStateProgram", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 6],
    [name |-> "RekeyTo", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 6],
    [name |-> "ConfigAsset", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetTotal", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetDecimals", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetDefaultFrozen", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetUnitName", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetName", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetURL", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetMetadataHash", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetManager", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetReserve", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetFreeze", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "ConfigAssetClawback", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "FreezeAsset", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "FreezeAssetAccount", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "FreezeAssetFrozen", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 5],
    [name |-> "Assets", type |-> "uint64", arr |-> TRUE, ver |-> 3, itx |-> 6],
    [name |-> "NumAssets", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 0],
    [name |-> "Applications", type |-> "uint64", arr |-> TRUE, ver |-> 3, itx |-> 6],
    [name |-> "NumApplications", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 0],
    [name |-> "GlobalNumUint", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 6],
    [name |-> "GlobalNumByteSlice", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 6],
    [name |-> "LocalNumUint", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 6],
    [name |-> "LocalNumByteSlice", type |-> "uint64", arr |-> FALSE, ver |-> 3, itx |-> 6],
    [name |-> "ExtraProgramPages", type |-> "uint64", arr |-> FALSE, ver |-> 4, itx |-> 6],
    [name |-> "Nonparticipation", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 6],
    [name |-> "Logs", type |-> "bytes", arr |-> TRUE, ver |-> 5, itx |-> 0],
    [name |-> "NumLogs", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "CreatedAssetID", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "CreatedApplicationID", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "LastLog", type |-> "bytes", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "StateProofPK", type |-> "bytes", arr |-> FALSE, ver |-> 6, itx |-> 6],
    [name |-> "ApprovalProgramPages", type |-> "bytes", arr |-> TRUE, ver |-> 7, itx |-> 7],
    [name |-> "NumApprovalProgramPages", type |-> "uint64", arr |-> FALSE, ver |-> 7, itx |-> 0],
    [name |-> "ClearStateProgramPages", type |-> "bytes", arr |-> TRUE, ver |-> 7, itx |-> 7],
    [name |-> "NumClearStateProgramPages", type |-> "uint64", arr |-> FALSE, ver |-> 7, itx |-> 0] >>],
  [kind |-> "global", tab |-> <<
    [name |-> "MinTxnFee", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "MinBalance", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "MaxTxnLife", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "ZeroAddress", type |-> "bytes", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "GroupSize", type |-> "uint64", arr |-> FALSE, ver |-> 0, itx |-> 0],
    [name |-> "LogicSigVersion", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "Round", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "LatestTimestamp", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "CurrentApplicationID", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "CreatorAddress", type |-> "bytes", arr |-> FALSE, ver |-> 3, itx |-> 0],
    [name |-> "CurrentApplicationAddress", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "GroupID", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "OpcodeBudget", type |-> "uint64", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "CallerApplicationID", type |-> "uint64", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "CallerApplicationAddress", type |-> "bytes", arr |-> FALSE, ver |-> 6, itx |-> 0] >>],
  [kind |-> "ecdsa", tab |-> <<
    [name |-> "Secp256k1", type |-> "none", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "Secp256r1", type |-> "none", arr |-> FALSE, ver |-> 7, itx |-> 0] >>],
  [kind |-> "b64enc", tab |-> <<
    [name |-> "URLEncoding", type |-> "any", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "StdEncoding", type |-> "any", arr |-> FALSE, ver |-> 6, itx |-> 0] >>],
  [kind |-> "json", tab |-> <<
    [name |-> "JSONString", type |-> "bytes", arr |-> FALSE, ver |-> 7, itx |-> 0],
    [name |-> "JSONUint64", type |-> "uint64", arr |-> FALSE, ver |-> 7, itx |-> 0],
    [name |-> "JSONObject", type |-> "bytes", arr |-> FALSE, ver |-> 7, itx |-> 0] >>],
  [kind |-> "vrf", tab |-> <<
    [name |-> "VrfAlgorand", type |-> "none", arr |-> FALSE, ver |-> 7, itx |-> 0] >>],
  [kind |-> "block", tab |-> <<
    [name |-> "BlkSeed", type |-> "bytes", arr |-> FALSE, ver |-> 7, itx |-> 0],
    [name |-> "BlkTimestamp", type |-> "uint64", arr |-> FALSE, ver |-> 7, itx |-> 0] >>],
  [kind |-> "holding", tab |-> <<
    [name |-> "AssetBalance", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetFrozen", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0] >>],
  [kind |-> "aparams", tab |-> <<
    [name |-> "AssetTotal", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetDecimals", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetDefaultFrozen", type |-> "uint64", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetUnitName", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetName", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetURL", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetMetadataHash", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetManager", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetReserve", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetFreeze", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetClawback", type |-> "bytes", arr |-> FALSE, ver |-> 2, itx |-> 0],
    [name |-> "AssetCreator", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0] >>],
  [kind |-> "appparams", tab |-> <<
    [name |-> "AppApprovalProgram", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppClearStateProgram", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppGlobalNumUint", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppGlobalNumByteSlice", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppLocalNumUint", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppLocalNumByteSlice", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppExtraProgramPages", type |-> "uint64", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppCreator", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0],
    [name |-> "AppAddress", type |-> "bytes", arr |-> FALSE, ver |-> 5, itx |-> 0] >>],
  [kind |-> "acct", tab |-> <<
    [name |-> "AcctBalance", type |-> "uint64", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "AcctMinBalance", type |-> "uint64", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "AcctAuthAddr", type |-> "bytes", arr |-> FALSE, ver |-> 6, itx |-> 0],
    [name |-> "AcctTotalNumUint", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalNumByteSlice", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalExtraAppPages", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalAppsCreated", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalAppsOptedIn", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalAssetsCreated", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalAssets", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalBoxes", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0],
    [name |-> "AcctTotalBoxBytes", type |-> "uint64", arr |-> FALSE, ver |-> 8, itx |-> 0] >>],
  [kind |-> "ec", tab |-> <<
    [name |-> "BN254_G1", type |-> "none", arr |-> FALSE, ver |-> 9, itx |-> 0],
    [name |-> "BN254_G2", type |-> "none", arr |-> FALSE, ver |-> 9, itx |-> 0],
    [name |-> "BLS12_381_G1", type |-> "none", arr |-> FALSE, ver |-> 9, itx |-> 0],
    [name |-> "BLS12_381_G2", type |-> "none", arr |-> FALSE, ver |-> 9, itx |-> 0] >>] >>

FieldKinds == {FieldList[i].kind : i \in 1..Len(FieldList)}
\* the fields of a kind; field number n is entry n + 1
FieldsOf == FoldLeft(LAMBDA f, e : f @@ (e.kind :> e.tab), << >>, FieldList)
FieldNames == FoldLeft(LAMBDA f, e : f @@ (e.kind :> {e.tab[i].name : i \in 1..Len(e.tab)}), << >>, FieldList)
FieldNum == FoldLeft(LAMBDA f, e :
              f @@ (e.kind :> FoldLeft(LAMBDA g, i : g @@ (e.tab[i].name :> i - 1), << >>,
                                       [i \in 1..Len(e.tab) |-> i])), << >>, FieldList)

\* named integer constants of the int instruction
IntConstList == <<
  [name |-> "ApplicationCall", v |-> 6],
  [name |-> "AssetConfig", v |-> 3],
  [name |-> "AssetFreeze", v |-> 5],
  [name |-> "AssetTransfer", v |-> 4],
  [name |-> "ClearState", v |-> 3],
  [name |-> "CloseOut", v |-> 2],
  [name |-> "DeleteApplication", v |-> 5],
  [name |-> "KeyRegistration", v |-> 2],
  [name |-> "NoOp", v |-> 0],
  [name |-> "OptIn", v |-> 1],
  [name |-> "Payment", v |-> 1],
  [name |-> "Unknown type. Invalid transaction", v |-> 0],
  [name |-> "UpdateApplication", v |-> 4],
  [name |-> "acfg", v |-> 3],
  [name |-> "afrz", v |-> 5],
  [name |-> "appl", v |-> 6],
  [name |-> "axfer", v |-> 4],
  [name |-> "keyreg", v |-> 2],
  [name |-> "pay", v |-> 1],
  [name |-> "unknown", v |-> 0] >>
IntConstNames == {IntConstList[i].name : i \in 1..Len(IntConstList)}
IntConstOf == FoldLeft(LAMBDA f, e : f @@ (e.name :> e.v), << >>, IntConstList)
=============================================================================
