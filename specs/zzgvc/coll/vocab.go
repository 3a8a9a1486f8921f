// Package coll specifies the lists and dictionaries through their public interfaces.
package coll

import (
	"reflect"

	"github.com/coveooss/gotemplate/v3/collections"
	_ "github.com/coveooss/gotemplate/v3/hcl"
	_ "github.com/coveooss/gotemplate/v3/json"
	_ "github.com/coveooss/gotemplate/v3/xml"
	_ "github.com/coveooss/gotemplate/v3/yaml"
	"github.com/coveooss/gotemplate/v3/zzgvc/rt"
)

type list = collections.IGenericList
type dict = collections.IDictionary
type any = interface{}

// plain values are neither collections nor pointers: they are stored unchanged.
//
//gvc:pure
func plain(v any) bool {
	if v == nil {
		return true
	}
	switch reflect.TypeOf(v).Kind() {
	case reflect.Map, reflect.Slice, reflect.Array, reflect.Ptr:
		return false
	}
	return true
}

//gvc:pure
func isList(v any) bool { _, ok := v.(list); return ok }

//gvc:pure
func isDict(v any) bool { _, ok := v.(dict); return ok }

// conv relates a value to what a collection stores for it.
//
//gvc:opaque
//gvc:pure
func conv(v, r any) bool {
	return rt.Same(v, r) || !plain(v) && (isList(r) || isDict(r))
}
