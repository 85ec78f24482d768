package main

// The scanner, parser and emitter of gopkg.in/yaml.v3, executed from their source: the harness package hy replaces the
// entry points that work through package reflect by calls of these.

func init() {
	unexported := func(th *Thread, typ, name string) *Fn {
		f := th.findMethod(th.w.ptrTo(yamlPkg, typ), th.w.prog.ImportedPackage(yamlPkg).Pkg, name)
		if f == nil {
			panic(unsupported("method " + name + " of yaml's " + typ))
		}
		return f
	}
	field := func(th *Thread, p Value) Value {
		return (*th.ptr(p)).(Struct)[0]
	}
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		return th.callFn(unexported(th, "parser", "parse"), []Value{field(th, a[0])}, nil)
	}, zzPrefix+"/hy.parseNext")
	reg(func(th *Thread, fn *Fn, a []Value) Value {
		e := field(th, a[0])
		th.callFn(unexported(th, "encoder", "init"), []Value{e}, nil)
		th.callFn(unexported(th, "encoder", "node"), []Value{e, a[1], ""}, nil)
		return nil
	}, zzPrefix+"/hy.emitNode")
}
