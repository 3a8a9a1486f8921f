package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// kindTerm is reflect.Kind of the dynamic type of a value.
func (x *Exec) kindTerm(st *State, v Value) *Term {
	if i, ok := v.(*IfaceV); ok {
		if _, eng := i.v.(*RTypeV); !eng {
			return intT(kindOf(i.typ))
		}
	}
	t := x.asVal(v)
	if t == tNilV {
		return tZero
	}
	tag := tagOf(t)
	if isInt(tag) {
		if n := tag.num.Int64(); n > 0 && n < int64(len(treg.list)) {
			return intT(kindOf(treg.list[n]))
		}
	}
	if typ, ok := st.refine[t.id]; ok {
		return intT(kindOf(typ))
	}
	k := uf("kind", SInt, tag)
	if !k.bound {
		in := func(ns ...int64) *Term {
			var o []*Term
			for _, n := range ns {
				o = append(o, eq(k, intT(n)))
			}
			return or(o...)
		}
		x.always(st, eq(tester("vbool", t), eq(k, tOne)))
		x.always(st, eq(tester("vint", t), and(le(intT(2), k), le(k, intT(12)))))
		x.always(st, eq(tester("vflt", t), in(13, 14)))
		x.always(st, eq(tester("vstr", t), eq(k, intT(24))))
		x.always(st, eq(tester("vslice", t), eq(k, intT(23))))
		x.always(st, eq(tester("vref", t), in(18, 19, 21, 22)))
		x.always(st, eq(tester("vopq", t), in(15, 16, 17, 25, 26)))
		x.always(st, eq(tester("vnil", t), eq(k, tZero)))
		x.kindFacts(st)
	}
	return k
}

// pkgOf numbers the packages that define the dynamic types.
func (x *Exec) pkgOf(st *State, tag *Term) *Term {
	num := func(t types.Type) *Term {
		p := ""
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			p = n.Obj().Pkg().Path()
		}
		id, ok := pkgIDs[p]
		if !ok {
			id = int64(len(pkgIDs) + 1)
			pkgIDs[p] = id
		}
		return intT(id)
	}
	if isInt(tag) {
		if n := tag.num.Int64(); n > 0 && n < int64(len(treg.list)) {
			return num(treg.list[n])
		}
	}
	n, _ := st.ghost["pkgfacts"].(*Term)
	from := 1
	if n != nil {
		from = int(n.num.Int64())
	}
	for i := from; i < len(treg.list); i++ {
		x.always(st, eq(uf("pkg", SInt, intT(int64(i))), num(treg.list[i])))
	}
	st.ghost["pkgfacts"] = intT(int64(len(treg.list)))
	return uf("pkg", SInt, tag)
}

var pkgIDs = map[string]int64{}

// always adds a fact that holds whatever the path.
func (x *Exec) always(st *State, t *Term) {
	x.global[t.id] = true
	st.fact(t)
}

func (x *Exec) kindFacts(st *State) {
	n, _ := st.ghost["kindfacts"].(*Term)
	from := 1
	if n != nil {
		from = int(n.num.Int64())
	}
	for i := from; i < len(treg.list); i++ {
		x.always(st, eq(uf("kind", SInt, intT(int64(i))), intT(kindOf(treg.list[i]))))
	}
	st.ghost["kindfacts"] = intT(int64(len(treg.list)))
}

// held is the value inside a reflect.Value as an interface value.
func notElem(v Value, what string) {
	if r, ok := v.(*RValueV); ok && r.elem {
		if i, ok := r.v.(*IfaceV); !ok || i == nil {
			unsup("reflect %s of an element of unknown static type", what)
		}
	}
}

func held(v Value) Value {
	r, ok := v.(*RValueV)
	if !ok {
		unsup("reflect.Value %T", v)
	}
	if r.v == nil {
		return tNilV
	}
	return r.v
}

var reflectTypeType types.Type

func (x *Exec) rtypeIface(v Value) Value {
	return &IfaceV{x.rtypeT(), &RTypeV{v}}
}

func (x *Exec) rtypeT() types.Type {
	if reflectTypeType == nil {
		p := x.w.allPkgs["reflect"]
		reflectTypeType = types.NewPointer(p.Pkg.Scope().Lookup("rtype").Type())
	}
	return reflectTypeType
}

// reflectType: methods of reflect.Type.
func (x *Exec) reflectType(fr *Frame, st *State, i *IfaceV, name string, args []Value, call *ssa.CallCommon, site string, k cont) {
	v := i.v.(*RTypeV).v
	t := x.asVal(v)
	switch name {
	case "Kind":
		k(st, x.kindTerm(st, v), nil)
	case "Name":
		k(st, uf("reflect.name", SStr, tagOf(t)), nil)
	case "String":
		k(st, uf("reflect.string", SStr, tagOf(t)), nil)
	case "ConvertibleTo":
		o, ok := args[0].(*IfaceV)
		if !ok {
			unsup("ConvertibleTo of unknown type")
		}
		tt := tagOf(x.asVal(o.v.(*RTypeV).v))
		if isInt(tagOf(t)) && isInt(tt) {
			a, b := treg.list[tagOf(t).num.Int64()], treg.list[tt.num.Int64()]
			k(st, boolT(types.ConvertibleTo(a, b)), nil)
			return
		}
		r := x.convertible(st, t, tt)
		k(st, r, nil)
	default:
		unsup("reflect.Type.%s", name)
	}
}

// convertible: the dynamic type of t converts to the (known) target type.
func (x *Exec) convertible(st *State, t, target *Term) *Term {
	if !isInt(target) {
		unsup("ConvertibleTo of unknown type")
	}
	to := treg.list[target.num.Int64()]
	name := "convertible." + cleanName(tstr(to))
	r := uf(name, SBool, tagOf(t))
	c := classOf(to)
	// the underlying types must agree: a slice type whose elements are the interface type, or a map
	st.fact(implies(r, tester(c, t)))
	if c == "vref" {
		x.kindTerm(st, t)
		st.fact(implies(r, eq(uf("kind", SInt, tagOf(t)), intT(kindOf(to)))))
	}
	for i := 1; i < len(treg.list); i++ {
		b := types.ConvertibleTo(treg.list[i], to)
		f := uf(name, SBool, intT(int64(i)))
		if !b {
			f = not(f)
		}
		st.fact(f)
	}
	return r
}

var reflectModels = map[string]model{
	"reflect.TypeOf": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := args[0]
		if i, ok := v.(*IfaceV); ok {
			k(st, x.rtypeIface(i), nil)
			return
		}
		t := v.(*Term)
		x.split(fr, st, tester("vnil", t), func(fr *Frame, st *State) { k(st, tNilV, nil) },
			func(fr *Frame, st *State) { k(st, x.rtypeIface(t), nil) })
	},
	"reflect.ValueOf": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		k(st, &RValueV{x.refined(st, args[0]), false}, nil)
	},
	"(reflect.Value).Kind": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		notElem(args[0], "Kind")
		k(st, x.kindTerm(st, x.holds(st, args[0])), nil)
	},
	"(reflect.Value).IsValid": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		k(st, not(tester("vnil", x.asVal(x.holds(st, args[0])))), nil)
	},
	"(reflect.Value).Interface": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		if args[0].(*RValueV).elem {
			k(st, v, nil)
			return
		}
		t := x.asVal(v)
		x.split(fr, st, tester("vnil", t), func(fr *Frame, st *State) { x.panicCall(fr, st, "Interface of zero Value", site, k) },
			func(fr *Frame, st *State) { k(st, v, nil) })
	},
	"(reflect.Value).Type": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		t := x.asVal(v)
		x.split(fr, st, tester("vnil", t), func(fr *Frame, st *State) { x.panicCall(fr, st, "Type of zero Value", site, k) },
			func(fr *Frame, st *State) { k(st, x.rtypeIface(v), nil) })
	},
	"(reflect.Value).Len": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		if s := sliceOf(v); s != nil {
			k(st, s.len, nil)
			return
		}
		t := x.asVal(v)
		kd := x.kindTerm(st, v)
		ok := or(tester("vslice", t), tester("vstr", t), eq(kd, intT(17)), eq(kd, intT(21)), eq(kd, intT(18)))
		x.split(fr, st, ok, func(fr *Frame, st *State) {
			if x.proves(st, tester("vslice", t), x.opt.proveTimeout) {
				k(st, sel("vll", t), nil)
				return
			}
			n := uf("reflect.len", SInt, t)
			st.fact(and(le(tZero, n), le(n, bigT(maxLen))))
			st.fact(implies(tester("vslice", t), eq(n, sel("vll", t))))
			st.fact(implies(tester("vstr", t), eq(n, strLen(sel("vs", t)))))
			k(st, n, nil)
		}, func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: Len of wrong kind", site, k) })
	},
	"(reflect.Value).Index": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		i := args[1].(*Term)
		if s := sliceOf(v); s != nil {
			in := and(le(tZero, i), lt(i, s.len))
			x.split(fr, st, in, func(fr *Frame, st *State) {
				p := &PtrV{kind: 'e', root: tstr(s.elem), ref: s.ref, idx: addT(s.off, i), elem: s.elem}
				e := x.load(st, p)
				if !isIface(s.elem) {
					e = &IfaceV{s.elem, e}
				}
				k(st, &RValueV{e, true}, nil)
			}, func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: slice index out of range", site, k) })
			return
		}
		t := x.asVal(v)
		n := uf("reflect.len", SInt, t)
		st.fact(implies(tester("vslice", t), eq(n, sel("vll", t))))
		x.split(fr, st, and(le(tZero, i), lt(i, n)), func(fr *Frame, st *State) {
			// an element of a list of unknown element type; []interface{} elements are the stored values
			e := uf("reflect.index", SVal, t, i)
			x.wfVal(st, e)
			it := types.NewInterfaceType(nil, nil)
			_, h := x.elemHeap(st, it, leaf{"", SVal})
			st.fact(implies(and(tester("vslice", t), x.genericElem(st, t)), eq(e, sel2(sel2(h, sel("vlr", t)), addT(sel("vlo", t), i)))))
			x.assumed["reflect: elements of lists of other element types are a function of the list value and the index"] = true
			k(st, &RValueV{e, true}, nil)
		}, func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: slice index out of range", site, k) })
	},
	"(reflect.Value).Convert": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		o, ok := args[1].(*IfaceV)
		if !ok {
			unsup("Convert to unknown type")
		}
		to, ok := o.v.(*RTypeV).v.(*IfaceV)
		if !ok {
			unsup("Convert to unknown type")
		}
		if i, ok := v.(*IfaceV); ok {
			if types.ConvertibleTo(i.typ, to.typ) && classOf(i.typ) == classOf(to.typ) {
				k(st, &RValueV{&IfaceV{to.typ, x.changeType(i.v, to.typ)}, false}, nil)
				return
			}
			unsup("Convert %s to %s", i.typ, to.typ)
		}
		t := x.asVal(v)
		tag := tagTerm(to.typ)
		switch classOf(to.typ) {
		case "vslice":
			st.fact(tester("vslice", t))
			s := &SliceV{sel("vlr", t), sel("vlo", t), sel("vll", t), sel("vlc", t), sliceElem(to.typ)}
			k(st, &RValueV{&IfaceV{to.typ, x.norm(st, s)}, false}, nil)
		case "vref":
			k(st, &RValueV{&IfaceV{to.typ, sel("vr", t)}, false}, nil)
		default:
			_ = tag
			unsup("Convert to %s", to.typ)
		}
	},
	"(reflect.Value).Elem": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		if i, ok := v.(*IfaceV); ok && isPtr(i.typ) {
			p, ok := i.v.(*PtrV)
			if ok {
				e := x.load(st, p)
				if !isIface(p.elem) {
					e = &IfaceV{p.elem, e}
				}
				k(st, &RValueV{e, true}, nil)
				return
			}
		}
		t := x.asVal(v)
		e := uf("reflect.elem", SVal, t)
		x.wfVal(st, e)
		x.assumed["reflect: the value behind a pointer of unknown type is a function of the pointer, is not itself a pointer and not nil"] = true
		k(st, &RValueV{e, true}, nil)
	},
	"(reflect.Value).IsNil": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		t := x.asVal(v)
		k(st, ite(tester("vslice", t), eq(sel("vlr", t), tZero), eq(sel("vr", t), tZero)), nil)
	},
	"(reflect.Value).String": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		t := x.asVal(x.holds(st, args[0]))
		k(st, ite(tester("vstr", t), sel("vs", t), uf("reflect.vstring", SStr, t)), nil)
	},
	"(reflect.Value).Float": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		t := x.asVal(x.holds(st, args[0]))
		x.split(fr, st, tester("vflt", t), func(fr *Frame, st *State) { k(st, sel("vf", t), nil) },
			func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: Float of wrong kind", site, k) })
	},
	"(reflect.Value).Int": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		t := x.asVal(v)
		kd := x.kindTerm(st, v)
		x.split(fr, st, and(le(intT(2), kd), le(kd, intT(6))), func(fr *Frame, st *State) {
			r := sel("vi", t)
			st.fact(and(le(bigT(minInt64), r), le(r, bigT(maxInt64))))
			k(st, r, nil)
		}, func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: Int of wrong kind", site, k) })
	},
	"(reflect.Value).Uint": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		v := x.holds(st, args[0])
		t := x.asVal(v)
		kd := x.kindTerm(st, v)
		x.split(fr, st, and(le(intT(7), kd), le(kd, intT(12))), func(fr *Frame, st *State) {
			r := sel("vi", t)
			st.fact(and(le(tZero, r), lt(r, bigT(two64))))
			k(st, r, nil)
		}, func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: Uint of wrong kind", site, k) })
	},
	"(reflect.Value).Bool": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		t := x.asVal(x.holds(st, args[0]))
		x.split(fr, st, tester("vbool", t), func(fr *Frame, st *State) { k(st, sel("vb", t), nil) },
			func(fr *Frame, st *State) { x.panicCall(fr, st, "reflect: Bool of wrong kind", site, k) })
	},
	"(reflect.Value).MapKeys": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		x.assumed["reflect: MapKeys gives any list of keys"] = true
		k(st, x.havocResults(st, f.fn.Signature, "mapkeys"), nil)
	},
	"(reflect.Value).MapIndex": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		x.assumed["reflect: MapIndex of a key given by MapKeys gives any value and does not fail"] = true
		e := sym("mapindex", SVal)
		x.wfVal(st, e)
		k(st, &RValueV{e, true}, nil)
	},
	"(reflect.Kind).String": func(x *Exec, fr *Frame, st *State, f *FuncV, args []Value, site string, k cont) {
		k(st, uf("reflect.kindname", SStr, args[0].(*Term)), nil)
	},
}

// genericElem: the list's element type is interface{}.
func (x *Exec) genericElem(st *State, t *Term) *Term {
	tag := tagOf(t)
	g := uf("generic.elem", SBool, tag)
	for i := 1; i < len(treg.list); i++ {
		s := sliceElem(treg.list[i])
		if s == nil {
			continue
		}
		f := uf("generic.elem", SBool, intT(int64(i)))
		if !isIface(s) {
			f = not(f)
		}
		st.fact(f)
	}
	return g
}

// refined makes a type known on the path explicit.
func (x *Exec) refined(st *State, v Value) Value {
	if t, ok := v.(*Term); ok {
		if typ, ok := st.refine[t.id]; ok {
			return x.norm(st, &IfaceV{typ, x.unboxVal(t, typ)})
		}
	}
	return v
}

func (x *Exec) holds(st *State, v Value) Value { return x.refined(st, held(v)) }
