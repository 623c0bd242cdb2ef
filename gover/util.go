package main

import "go/types"

type goVar = types.Var
type goType = types.Type

func map2() map[types.Object]Val { return map[types.Object]Val{} }

func (f *FuncDecl) sig() *types.Signature { return f.obj.Type().(*types.Signature) }
