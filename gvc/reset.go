package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Every specification starts from the same tables, whatever was verified before in this process: the names of the
// symbols, and with them the behaviour of the solvers, do not depend on the order of the work.

type tables struct {
	terms         map[string]*Term
	seq, sseq     int
	names, alpha  map[string]int
	pkg           map[string]int64
	ufs           map[string]*ufDecl
	types, ifaces []types.Type
	funcs         []*FuncV
	ids           map[*ssa.Function]int
	toks          map[int]*PtrV
}

func copyMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

var snapshot *tables

func resetTables(w *World) {
	if snapshot == nil {
		snapshot = &tables{copyMap(termTab), termSeq, symSeq, copyMap(symNames), copyMap(alphaIDs), copyMap(pkgIDs), copyMap(ufs),
			append([]types.Type(nil), treg.list...), append([]types.Type(nil), treg.ifaces...), append([]*FuncV(nil), funcTab...), copyMap(funcIDs), copyMap(ptrTokens)}
		return
	}
	s := snapshot
	termTab, termSeq, symSeq = copyMap(s.terms), s.seq, s.sseq
	symNames, alphaIDs, pkgIDs, ufs = copyMap(s.names), copyMap(s.alpha), copyMap(s.pkg), copyMap(s.ufs)
	treg = &typeReg{list: append([]types.Type(nil), s.types...), ifaces: append([]types.Type(nil), s.ifaces...)}
	for i, t := range treg.list {
		if t != nil {
			treg.ids.Set(t, i)
		}
	}
	funcTab, funcIDs, ptrTokens = append([]*FuncV(nil), s.funcs...), copyMap(s.ids), copyMap(s.toks)
	splitCache = map[int][]*Term{}
	qpCache, quantCache, fbCache = map[[3]int]*Term{}, map[int]bool{}, map[int]map[int]bool{}
	w.consts, w.impls, w.mined = map[string]*constGlobal{}, map[string][]types.Type{}, map[string]bool{}
}
