package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	yaml3 "gopkg.in/yaml.v3"
)

// Structural decoding of yaml.Node trees into Go values, with the semantics of
// gopkg.in/yaml.v3's decoder (which itself works through package reflect).

const yamlPkg = "gopkg.in/yaml.v3"

const (
	nKind = iota
	nStyle
	nTag
	nValue
	nAnchor
	nAlias
	nContent
	nHead
	nLine
	nFoot
)

type decFail struct{ err Iface }

type ydec struct {
	th      *Thread
	terrs   []Value
	aliases map[*Value]bool
}

func (d *ydec) fail(msg Value) {
	panic(decFail{d.th.newError(d.th.w.ctx.strCat("yaml: ", msg))})
}

func (d *ydec) terror(n Struct, t types.Type) {
	msg := d.th.w.ctx.strCat(d.th.w.ctx.strCat("cannot unmarshal `", n[nValue]), "` into "+t.String())
	d.terrs = append(d.terrs, msg)
}

func (th *Thread) decodeInto(np *Value, out *Value, t types.Type) Iface {
	d := &ydec{th: th, aliases: map[*Value]bool{}}
	var err Iface
	func() {
		depth, fr := th.depth, th.fr
		defer func() {
			if r := recover(); r != nil {
				f, ok := r.(decFail)
				if !ok {
					panic(r)
				}
				th.depth, th.fr = depth, fr
				err = f.err
			}
		}()
		d.unmarshal(np, out, t)
	}()
	if err.t != nil {
		return err
	}
	if len(d.terrs) > 0 {
		es := Slice{}
		for _, e := range d.terrs {
			es = append(es, e)
		}
		return Iface{th.w.ptrTo(yamlPkg, "TypeError"), newCell(Struct{es})}
	}
	return Iface{}
}

func (d *ydec) node(np *Value) Struct {
	if np == nil {
		d.th.nilDeref()
	}
	return (*np).(Struct)
}

func (d *ydec) shortTag(np *Value) Value {
	f := d.th.findMethod(d.th.w.ptrTo(yamlPkg, "Node"), nil, "ShortTag")
	return d.th.callFn(f, []Value{np}, nil)
}

func (d *ydec) isNull(np *Value) bool {
	n := d.node(np)
	if k, ok := n[nKind].(uint64); ok && k != 8 {
		if tg, ok := n[nTag].(string); ok && (tg == "" || tg == "!!map" || tg == "!!seq") && k != 0 {
			return false
		}
	}
	return d.th.truth(norm(d.th.w.ctx.strEq(d.shortTag(np), "!!null")))
}

func (d *ydec) kind(n Struct) uint64 {
	return uint64(d.th.toInt(n[nKind]))
}

func (d *ydec) content(n Struct) []*Value {
	s, _ := n[nContent].(Slice)
	out := make([]*Value, len(s))
	for i := range s {
		out[i] = d.th.ptr(d.th.load(&s[i]))
	}
	return out
}

func isNodeType(t types.Type) bool {
	nt, ok := t.(*types.Named)
	return ok && nt.Obj().Name() == "Node" && nt.Obj().Pkg() != nil && nt.Obj().Pkg().Path() == yamlPkg
}

func (d *ydec) unmarshal(np *Value, out *Value, t types.Type) bool {
	th := d.th
	if isNodeType(t) {
		th.store(out, th.load(np))
		return true
	}
	n := d.node(np)
	if th.w.race {
		th.access(np, false)
	}
	kind := d.kind(n)
	switch kind {
	case 1:
		c := d.content(n)
		if len(c) == 1 {
			d.unmarshal(c[0], out, t)
			return true
		}
		return false
	case 16:
		if d.aliases[np] {
			d.fail("anchor value contains itself")
		}
		d.aliases[np] = true
		g := d.unmarshal(th.ptr(n[nAlias]), out, t)
		delete(d.aliases, np)
		return g
	}
	// prepare
	if !d.isNull(np) {
		for {
			again := false
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				p := th.ptr(th.load(out))
				if p == nil {
					p = newCell(zero(pt.Elem()))
					th.store(out, p)
				}
				out = p
				t = pt.Elem()
				again = true
			}
			if m := th.findMethod(types.NewPointer(t), nil, "UnmarshalYAML"); m != nil {
				sig := m.fn.Signature
				if sig.Params().Len() == 1 && sig.Results().Len() == 1 {
					if pp, ok := sig.Params().At(0).Type().(*types.Pointer); ok && isNodeType(pp.Elem()) {
						r := th.callFn(m, []Value{out, np}, nil).(Iface)
						if r.t == nil {
							return true
						}
						if canon(r.t) == th.w.ptrTo(yamlPkg, "TypeError") {
							es := (*th.ptr(r.v)).(Struct)[0].(Slice)
							d.terrs = append(d.terrs, es...)
							return false
						}
						panic(decFail{r})
					}
					panic(unsupported("obsolete unmarshaler"))
				}
			}
			if !again {
				break
			}
		}
	}
	switch kind {
	case 8:
		return d.scalar(np, n, out, t)
	case 4:
		return d.mapping(n, out, t)
	case 2:
		return d.sequence(n, out, t)
	case 0:
		f := th.findMethod(th.w.ptrTo(yamlPkg, "Node"), nil, "IsZero")
		if th.truth(th.callFn(f, []Value{np}, nil)) {
			return d.null(out, t)
		}
	}
	d.fail(fmt.Sprintf("cannot decode node with unknown kind %d", kind))
	return false
}

func (d *ydec) null(out *Value, t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Interface, *types.Pointer, *types.Map, *types.Slice:
		d.th.store(out, zero(t))
		return true
	}
	return false
}

func (d *ydec) scalar(np *Value, n Struct, out *Value, t types.Type) bool {
	th := d.th
	var resolved Iface
	var rtag Value
	ind := th.findMethod(th.w.ptrTo(yamlPkg, "Node"), th.w.prog.ImportedPackage(yamlPkg).Pkg, "indicatedString")
	if th.truth(th.callFn(ind, []Value{np}, nil)) {
		rtag = "!!str"
		resolved = Iface{canon(types.Typ[types.String]), n[nValue]}
	} else {
		func() {
			depth, fr := th.depth, th.fr
			defer func() {
				if r := recover(); r != nil {
					gp, ok := r.(*goPanic)
					if !ok {
						panic(r)
					}
					// yaml's own failf panics with yamlError{err}
					th.depth, th.fr = depth, fr
					if iv, ok := gp.v.(Iface); ok {
						if s, ok := iv.v.(Struct); ok && strings.HasSuffix(iv.t.String(), "yamlError") {
							panic(decFail{s[0].(Iface)})
						}
					}
					panic(r)
				}
			}()
			r := th.callFn(th.w.findFunc(yamlPkg, "resolve"), []Value{n[nTag], n[nValue]}, nil).(Tuple)
			rtag = r[0]
			resolved = r[1].(Iface)
		}()
		if s, ok := rtag.(string); ok && s == "!!binary" {
			panic(unsupported("!!binary"))
		}
	}
	if resolved.t == nil {
		return d.null(out, t)
	}
	if canon(resolved.t) == canon(t) {
		th.store(out, resolved.v)
		return true
	}
	if m := th.findMethod(types.NewPointer(t), nil, "UnmarshalText"); m != nil {
		r := th.callFn(m, []Value{out, th.strBytes(n[nValue])}, nil).(Iface)
		if r.t != nil {
			panic(decFail{r})
		}
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		th.store(out, resolved)
		return true
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			th.store(out, n[nValue])
			return true
		case u.Info()&types.IsInteger != 0:
			if w, s, ok := basicInfo(resolved.t); ok && s {
				tw, ts, _ := basicInfo(t)
				switch v := resolved.v.(type) {
				case uint64:
					sv := sext(v, w)
					if ts && sext(uint64(sv)&maskw(tw), tw) == sv || !ts && sv >= 0 && uint64(sv) <= maskw(tw) {
						th.store(out, uint64(sv)&maskw(tw))
						return true
					}
				case *Term:
					if tw == w && ts {
						th.store(out, v)
						return true
					}
					panic(unsupported("symbolic integer narrowing in yaml decode"))
				}
			} else if f, ok := resolved.v.(float64); ok {
				th.store(out, uint64(int64(f)))
				return true
			}
		case u.Info()&types.IsBoolean != 0:
			if isString(resolved.t) {
				s := th.concStr(resolved.v)
				switch s {
				case "y", "Y", "yes", "Yes", "YES", "on", "On", "ON":
					th.store(out, true)
					return true
				case "n", "N", "no", "No", "NO", "off", "Off", "OFF":
					th.store(out, false)
					return true
				}
			} else if b, ok := resolved.t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
				th.store(out, resolved.v)
				return true
			}
		case u.Info()&types.IsFloat != 0:
			switch v := resolved.v.(type) {
			case float64:
				th.store(out, v)
				return true
			case uint64:
				th.store(out, float64(int64(v)))
				return true
			}
		}
	}
	d.terror(n, t)
	return false
}

func (d *ydec) sequence(n Struct, out *Value, t types.Type) bool {
	th := d.th
	c := d.content(n)
	var et types.Type
	iface := false
	switch u := t.Underlying().(type) {
	case *types.Slice:
		et = u.Elem()
	case *types.Interface:
		iface = true
		et = types.NewInterfaceType(nil, nil)
	default:
		d.terror(n, t)
		return false
	}
	s := make(Slice, len(c))
	fillZero(s, et)
	if !iface {
		// yaml.v3 installs the new slice before it decodes the elements
		th.store(out, s)
	}
	j := 0
	for i := range c {
		e := newCell(zero(et))
		if d.unmarshal(c[i], e, et) {
			th.store(&s[j], *e)
			j++
		}
	}
	if iface {
		th.store(out, Iface{canon(types.NewSlice(et)), s[:j]})
	} else {
		th.store(out, s[:j])
	}
	return true
}

type yfield struct {
	idx int
	t   types.Type
}

func structFields(t types.Type) map[string]yfield {
	st := t.Underlying().(*types.Struct)
	out := map[string]yfield{}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("yaml")
		if tag == "" && !strings.Contains(st.Tag(i), ":") {
			tag = st.Tag(i)
		}
		if tag == "-" {
			continue
		}
		parts := strings.Split(tag, ",")
		for _, p := range parts[1:] {
			if p == "inline" {
				panic(unsupported("inline yaml field"))
			}
		}
		name := parts[0]
		if name == "" {
			name = strings.ToLower(f.Name())
		}
		out[name] = yfield{i, f.Type()}
	}
	return out
}

func (d *ydec) isMerge(n Struct) bool {
	if d.kind(n) != 8 {
		return false
	}
	tg, ok := n[nTag].(string)
	if ok && tg != "" && tg != "!" && tg != "!!merge" {
		return false
	}
	return d.th.truth(norm(d.th.w.ctx.strEq(n[nValue], "<<")))
}

func (d *ydec) mapping(n Struct, out *Value, t types.Type) bool {
	th := d.th
	x := th.w.ctx
	c := d.content(n)
	bad := false
	for i := 0; i < len(c); i += 2 {
		ni := d.node(c[i])
		for j := i + 2; j < len(c); j += 2 {
			nj := d.node(c[j])
			if d.kind(ni) == d.kind(nj) && th.branch(x.strEq(ni[nValue], nj[nValue])) {
				d.terrs = append(d.terrs, "mapping key already defined")
				bad = true
			}
		}
	}
	if bad {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fields := structFields(t)
		done := map[string]bool{}
		for i := 0; i+1 < len(c); i += 2 {
			ni := d.node(c[i])
			if d.isMerge(ni) {
				panic(unsupported("merge key"))
			}
			nm := newCell("")
			if !d.unmarshal(c[i], nm, types.Typ[types.String]) {
				continue
			}
			name := th.concStr(*nm)
			f, ok := fields[name]
			if !ok {
				continue
			}
			if done[name] {
				d.terrs = append(d.terrs, "field already set")
				continue
			}
			done[name] = true
			s := (*out).(Struct)
			d.unmarshal(c[i+1], &s[f.idx], f.t)
		}
		return true
	case *types.Map, *types.Interface:
		var mt *types.Map
		isIf := false
		var m *MapObj
		switch u := u.(type) {
		case *types.Map:
			mt = u
			m, _ = th.load(out).(*MapObj)
		default:
			isIf = true
			ei := types.NewInterfaceType(nil, nil)
			strMap := true
			for i := 0; i < len(c); i += 2 {
				if th.concStr(d.shortTag(c[i])) != "!!str" {
					strMap = false
				}
			}
			if strMap {
				mt = types.NewMap(types.Typ[types.String], ei)
			} else {
				mt = types.NewMap(ei, ei)
			}
		}
		isNew := m == nil
		if isNew {
			m = newMap()
			if isIf {
				th.store(out, Iface{canon(mt), m})
			} else {
				th.store(out, m)
			}
		}
		for i := 0; i+1 < len(c); i += 2 {
			if d.isMerge(d.node(c[i])) {
				panic(unsupported("merge key"))
			}
			k := newCell(zero(mt.Key()))
			if !d.unmarshal(c[i], k, mt.Key()) {
				continue
			}
			e := newCell(zero(mt.Elem()))
			if d.unmarshal(c[i+1], e, mt.Elem()) || d.isNull(c[i+1]) && isNew {
				th.mapSet(m, *k, copyVal(*e))
			}
		}
		return true
	}
	d.terror(n, t)
	return false
}

// hostNode turns a natively parsed node into an interpreted one.
func hostNode(n *yaml3.Node, memo map[*yaml3.Node]*Value) *Value {
	if n == nil {
		return nil
	}
	if p, ok := memo[n]; ok {
		return p
	}
	p := new(Value)
	memo[n] = p
	var content Slice
	if n.Content != nil {
		content = make(Slice, 0, growReprint(len(n.Content)))
		for _, c := range n.Content {
			content = append(content, hostNode(c, memo))
		}
		rest := content[len(content):cap(content)]
		for i := range rest {
			rest[i] = (*Value)(nil)
		}
	}
	*p = Struct{uint64(n.Kind), uint64(n.Style), n.Tag, n.Value, n.Anchor, hostNode(n.Alias, memo), content,
		n.HeadComment, n.LineComment, n.FootComment, intV(n.Line), intV(n.Column)}
	return p
}

const plainChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_$./"

// parseText parses YAML text; symbolic text must be a plain word.
func (th *Thread) parseText(text Value) (*Value, Iface) {
	if s, ok := text.(string); ok {
		var n yaml3.Node
		if err := yaml3.Unmarshal([]byte(s), &n); err != nil {
			return nil, th.newError(err.Error())
		}
		if n.Kind == 0 {
			return nil, Iface{}
		}
		return hostNode(&n, map[*yaml3.Node]*Value{}), Iface{}
	}
	x := th.w.ctx
	c := x.True
	for _, t := range x.strTerms(text) {
		in := x.False
		for i := 0; i < len(plainChars); i++ {
			in = x.Or(in, x.Eq(t, x.small[plainChars[i]]))
		}
		c = x.And(c, in)
	}
	if !th.branch(c) {
		panic(unsupported("parsing symbolic YAML text"))
	}
	tag := th.callFn(th.w.findFunc(yamlPkg, "resolve"), []Value{"", text}, nil).(Tuple)[0]
	sc := newCell(Struct{uint64(8), uint64(0), tag, text, "", (*Value)(nil), Slice(nil), "", "", "", uint64(1), uint64(1)})
	return newCell(Struct{uint64(1), uint64(0), "", "", "", (*Value)(nil), Slice{sc}, "", "", "", uint64(1), uint64(1)}), Iface{}
}

func (th *Thread) decodeArg(np *Value, v Value) Value {
	iv := v.(Iface)
	if iv.t == nil {
		th.rtPanic("yaml: decode into nil")
	}
	pt, ok := iv.t.Underlying().(*types.Pointer)
	if !ok {
		panic(unsupported("yaml decode into non-pointer"))
	}
	p := th.ptr(iv.v)
	if p == nil {
		panic(unsupported("yaml decode into nil pointer"))
	}
	return th.decodeInto(np, p, pt.Elem())
}

func init() {
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return th.decodeArg(th.ptr(a[0]), a[1])
	}, "(*"+yamlPkg+".Node).Decode", zzPrefix+"/vfs.decodeNode")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		n, err := th.parseText(th.bytesStr(a[0]))
		if err.t != nil {
			return err
		}
		if n == nil {
			return Iface{}
		}
		return th.decodeArg(n, a[1])
	}, yamlPkg+".Unmarshal", zzPrefix+"/vfs.unmarshalText")
}
