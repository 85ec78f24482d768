package hc

import (
	"errors"
	"strings"

	"github.com/op/go-logging"
	"github.com/thediveo/enumflag"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
)

// The functions below stand in for package enumflag, which is all reflection.

type enum struct {
	typ   string
	cased bool
	set   func(string) bool
	get   func() string
	first bool
}

var (
	enums  = map[*enumflag.EnumValue]*enum{}
	slices = map[*enumflag.EnumSliceValue]*enum{}
)

func nameIn(names []string, cased bool, s string) bool {
	for _, n := range names {
		if n == s || !cased && strings.ToLower(n) == strings.ToLower(s) {
			return true
		}
	}
	return false
}

func spelling(names []string, cased bool) string {
	if len(names) == 0 {
		return "<unknown>"
	}
	if cased {
		return names[0]
	}
	return strings.ToLower(names[0])
}

func newEnum(flag interface{}, typ string, mapping interface{}, s enumflag.EnumCaseSensitivity) *enum {
	e := &enum{typ: typ, cased: bool(s), first: true}
	switch p := flag.(type) {
	case *logging.Level:
		m := mapping.(map[logging.Level][]string)
		e.set = func(v string) bool {
			for k, ns := range m {
				if nameIn(ns, e.cased, v) {
					*p = k
					return true
				}
			}
			return false
		}
		e.get = func() string { return spelling(m[*p], e.cased) }
	case *actions.Styles:
		m := mapping.(map[actions.Style][]string)
		e.set = func(v string) bool {
			var got actions.Styles
			for _, one := range strings.Split(v, ",") {
				found := false
				for k, ns := range m {
					if !found && nameIn(ns, e.cased, one) {
						got = append(got, k)
						found = true
					}
				}
				if !found {
					return false
				}
			}
			if e.first {
				e.first = false
				*p = got
			} else {
				for _, g := range got {
					dup := false
					for _, o := range *p {
						dup = dup || o == g
					}
					if !dup {
						*p = append(*p, g)
					}
				}
			}
			return true
		}
		e.get = func() string {
			var ns []string
			for _, k := range *p {
				ns = append(ns, spelling(m[k], e.cased))
			}
			return "[" + strings.Join(ns, ",") + "]"
		}
	default:
		panic("enumflag: unknown kind of flag")
	}
	return e
}

var errEnum = errors.New("not one of the values")

//verif:stub enumflag github.com/thediveo/enumflag.New
func newValue(flag interface{}, typ string, mapping interface{}, s enumflag.EnumCaseSensitivity) *enumflag.EnumValue {
	v := new(enumflag.EnumValue)
	enums[v] = newEnum(flag, typ, mapping, s)
	return v
}

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumValue).Set
func valueSet(v *enumflag.EnumValue, s string) error {
	if !enums[v].set(s) {
		return errEnum
	}
	return nil
}

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumValue).String
func valueString(v *enumflag.EnumValue) string { return enums[v].get() }

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumValue).Type
func valueType(v *enumflag.EnumValue) string { return enums[v].typ }

//verif:stub enumflag github.com/thediveo/enumflag.NewSlice
func newSlice(flag interface{}, typ string, mapping interface{}, s enumflag.EnumCaseSensitivity) *enumflag.EnumSliceValue {
	v := new(enumflag.EnumSliceValue)
	slices[v] = newEnum(flag, typ, mapping, s)
	return v
}

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumSliceValue).Set
func sliceSet(v *enumflag.EnumSliceValue, s string) error {
	if !slices[v].set(s) {
		return errEnum
	}
	return nil
}

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumSliceValue).String
func sliceString(v *enumflag.EnumSliceValue) string { return slices[v].get() }

//verif:stub enumflag (*github.com/thediveo/enumflag.EnumSliceValue).Type
func sliceType(v *enumflag.EnumSliceValue) string { return slices[v].typ }
