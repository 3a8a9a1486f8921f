package coll

import (
	"github.com/coveooss/gotemplate/v3/collections"
	"github.com/coveooss/gotemplate/v3/collections/implementation"
	"github.com/coveooss/gotemplate/v3/hcl"
	"github.com/coveooss/gotemplate/v3/json"
	"github.com/coveooss/gotemplate/v3/xml"
	"github.com/coveooss/gotemplate/v3/yaml"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

// The generators of the concrete runs.

var genListHelpers = []collections.IListHelper{implementation.GenericListHelper, json.GenericListHelper, yaml.GenericListHelper, hcl.GenericListHelper, xml.GenericListHelper}
var genDictHelpers = []collections.IDictionaryHelper{implementation.DictionaryHelper, json.DictionaryHelper, yaml.DictionaryHelper, hcl.DictionaryHelper, xml.DictionaryHelper}

func genLH(g *rt.G) implementation.ListHelper {
	return genListHelpers[g.Intn(5)].(implementation.ListHelper)
}

func genList(g *rt.G) list {
	bh := genLH(g)
	s := g.Anys()
	return bh.ConvertList(implementation.ListTypeName(s))
}

func genDict(g *rt.G) dict {
	bh := genLH(g)
	m := map[string]any{}
	for n := g.Intn(5); n > 0; n-- {
		m[g.Key()] = g.Any()
	}
	return bh.ConvertDict(implementation.DictTypeName(m))
}

func init() {
	rt.Gen(func(g *rt.G) list { return genList(g) })
	rt.Gen(func(g *rt.G) dict { return genDict(g) })
	rt.Gen(func(g *rt.G) implementation.ListHelper { return genLH(g) })
	rt.Gen(func(g *rt.G) implementation.BaseHelper { return genLH(g).BaseHelper })
	rt.Gen(func(g *rt.G) implementation.DictHelper {
		return genDictHelpers[g.Intn(5)].(implementation.DictHelper)
	})
	rt.Gen(func(g *rt.G) collections.IListHelper { return genListHelpers[g.Intn(5)] })
	rt.Gen(func(g *rt.G) collections.IDictionaryHelper { return genDictHelpers[g.Intn(5)] })
	rt.Dyn(func(g *rt.G) interface{} { return genList(g) })
	rt.Dyn(func(g *rt.G) interface{} { return genDict(g) })
}
