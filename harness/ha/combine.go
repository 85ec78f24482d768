package ha

import (
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/actions"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/ref"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/sym"
	"gopkg.in/yaml.v3"
)

// num is a decimal number split at 10^9, so that sums of two never overflow.
type num struct{ hi, lo int }

// decimal reads the digits of s (an optional '-' first).
func decimal(s string) (num, bool) {
	neg := false
	if len(s) > 0 && s[0] == '-' {
		neg = true
		s = s[1:]
	}
	ok := len(s) > 0
	var n num
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, sym.And(s[i] >= '0', s[i] <= '9'))
		d := int(s[i] - '0')
		if len(s)-i > 9 {
			n.hi = n.hi*10 + d
		} else {
			n.lo = n.lo*10 + d
		}
	}
	if neg {
		n.hi, n.lo = -n.hi, -n.lo
	}
	return n, ok
}

// isSum says a+b == c exactly.
func isSum(a, b, c num) bool {
	d := a.hi + b.hi - c.hi
	l := a.lo + b.lo - c.lo
	r := sym.And(d >= -4, d <= 4)
	return sym.And(r, d*1000000000+l == 0)
}

// decText draws a decimal integer as YAML writes it.
func decText(which int) string {
	digits := "0123456789"
	s := ""
	switch which {
	case 0:
		s = sym.Str(1, digits)
	case 1:
		s = sym.Str(1, "123456789") + sym.Str(1, digits)
	case 2:
		s = sym.Str(1, "123456789") + sym.Str(2, digits)
	case 3: // around the largest 64-bit integer
		s = "92233720368547758" + sym.Str(2, digits)
	case 4: // around half of it
		s = "46116860184273879" + sym.Str(2, digits)
	case 5: // beyond 64 bits
		s = "184467440737095516" + sym.Str(2, digits)
	default:
		s = "12345678999" + sym.Str(3, digits)
	}
	if sym.Choice(2) == 1 {
		return "-" + s
	}
	return s
}

// CombineInts adds decimal integers of every size.
//
//verif:check C03
//verif:quick forms=6
//verif:thorough forms=7
//verif:reach added refused
//verif:opt weight=4
func CombineInts() {
	f := sym.Param("forms", 7)
	o := gen.T("!!int", decText(sym.Choice(f)))
	n := gen.T("!!int", decText(sym.Choice(f)))
	a, _ := decimal(o.Value)
	b, _ := decimal(n.Value)
	err := actions.CombineNode(o, n)
	if err != nil {
		sym.Observe("err", "refused")
		sym.Reach("refused")
		return
	}
	sym.Observe("o", gen.Show(o))
	c, ok := decimal(o.Value)
	sym.Assert("C03", "combine-int-text", sym.And(ok, o.Tag == "!!int"))
	sym.Assert("C03", "combine-int-sum", isSum(a, b, c))
	sym.Reach("added")
}

// CombineBases adds integers in the other notations YAML has.
//
//verif:check C03
//verif:quick signs=1 bases=2
//verif:thorough signs=3 bases=6
//verif:reach added
//verif:opt weight=3
func CombineBases() {
	draw := func(signs, bases int) (string, int) {
		sign, s := "", 1
		switch sym.Choice(signs) {
		case 1:
			sign, s = "-", -1
		case 2:
			sign = "+"
		}
		pre, base, digits := "", 10, "0123456789"
		switch sym.Choice(bases) {
		case 1:
			pre, base, digits = "0x", 16, "0123456789abcdef"
		case 2:
			pre, base, digits = "0o", 8, "01234567"
		case 3:
			pre, base, digits = "0b", 2, "01"
		case 4:
			pre, base, digits = "0", 8, "01234567"
		case 5: // digits grouped by underscores
			t := sym.Str(2, "123456789")
			return sign + t[:1] + "_" + t[1:], s * (int(t[0]-'0')*10 + int(t[1]-'0'))
		}
		t := sym.Str(2, digits)
		if pre == "" {
			sym.Assume(t[0] != '0')
		}
		v := 0
		for i := 0; i < 2; i++ {
			d := int(t[i] - '0')
			if sym.Decide(t[i] >= 'a') {
				d = int(t[i]-'a') + 10
			}
			v = v*base + d
		}
		return sign + pre + t, s * v
	}
	ot, a := draw(3, 6)
	nt, b := draw(sym.Param("signs", 3), sym.Param("bases", 6))
	if sym.Bool() {
		ot, a, nt, b = nt, b, ot, a
	}
	o, n := gen.T("!!int", ot), gen.T("!!int", nt)
	err := actions.CombineNode(o, n)
	if err != nil {
		sym.Observe("err", "refused")
		return
	}
	sym.Observe("o", gen.Show(o))
	c, ok := decimal(o.Value)
	sym.Assert("C03", "combine-base-text", ok)
	sym.Assert("C03", "combine-base-sum", isSum(num{0, a}, num{0, b}, c))
	sym.Reach("added")
}

// CombineOthers combines booleans, text and mixtures.
//
//verif:check C03 C02 C28
//verif:quick looks=1
//verif:thorough looks=2
//verif:reach bool text mixed
func CombineOthers() {
	names := []string{"true", "True", "TRUE", "false", "False", "FALSE"}
	switch sym.Choice(3) {
	case 0:
		x, y := sym.Choice(6), sym.Choice(6)
		o, n := gen.T("!!bool", names[x]), gen.T("!!bool", names[y])
		err := actions.CombineNode(o, n)
		sym.Assert("C03", "combine-bool-no-error", err == nil)
		sym.Observe("o", gen.Show(o))
		w := "false"
		if x < 3 && y < 3 {
			w = "true"
		}
		sym.Assert("C03", "combine-bool-and", o.Value == w && o.Tag == "!!bool")
		sym.Reach("bool")
	case 1:
		tags := []string{"!!str", "!!float", "!!null", "!custom"}
		o := gen.T(tags[sym.Choice(4)], "")
		max := 2
		if o.Tag == "!!float" || o.Tag == "!!null" {
			max = sym.Param("looks", 1)
		}
		o.Value = sym.Str(sym.Choice(max+1), "")
		nt := []string{"!!str", "!!float", "!!null", "!!int", "!!bool"}
		n := gen.T(nt[sym.Choice(5)], sym.Str(sym.Choice(max+1), ""))
		w := o.Value + n.Value
		tag := o.Tag
		n0 := gen.Clone(n)
		err := actions.CombineNode(o, n)
		sym.Assert("C03", "combine-text-no-error", err == nil)
		sym.Observe("o", gen.Show(o))
		sym.Assert("C03", "combine-text-concatenation", o.Value == w)
		if tag == "!!str" || tag == "!custom" {
			sym.Assert("C03", "combine-text-type", o.Tag == tag)
		} else {
			// the joined text is text, or what it looks like
			looks := (&yaml.Node{Kind: yaml.ScalarNode, Value: w}).ShortTag()
			sym.Assert("C28", "combine-text-looks", sym.Or(o.ShortTag() == "!!str", o.ShortTag() == looks))
		}
		sym.Assert("C02", "combine-overlay-unchanged", gen.EqAll(n, n0))
		sym.Reach("text")
	default:
		// an integer or boolean never swallows something else
		o := gen.T("!!int", sym.Str(1, "0123456789"))
		if sym.Choice(2) == 1 {
			o = gen.T("!!bool", names[sym.Choice(6)])
		}
		n := gen.T("!!str", sym.Str(2, "ghijklmopqrsuvwxyz"))
		o0 := gen.Clone(o)
		err := actions.CombineNode(o, n)
		sym.Assert("C03", "combine-mixed-refused", err != nil)
		sym.Assert("C03", "combine-mixed-unchanged", gen.EqC(o, o0))
		sym.Reach("mixed")
	}
}

// CombineTexts joins longer texts.
//
//verif:check C03
//verif:quick len=8
//verif:thorough len=8
//verif:reach joined
func CombineTexts() {
	l := sym.Param("len", 5)
	o, n := gen.S(sym.Str(sym.Choice(l+1), "")), gen.S(sym.Str(sym.Choice(l+1), ""))
	w := o.Value + n.Value
	err := actions.CombineNode(o, n)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C03", "combine-texts", sym.And(err == nil, sym.And(o.Value == w, o.Tag == "!!str")))
	sym.Reach("joined")
}

// CombineKinds refuses everything that is not scalar with scalar and leaves the document alone.
//
//verif:check C03 C06 C02
//verif:quick depth=2 kids=2
//verif:thorough depth=2 kids=2
//verif:reach refused
func CombineKinds() {
	g := &gen.G{Kids: sym.Param("kids", 1)}
	o := g.Tree(sym.Param("depth", 1))
	n := g.Tree(sym.Param("depth", 1))
	sym.Assume(o.Kind != yaml.ScalarNode || n.Kind != yaml.ScalarNode)
	o.HeadComment, n.HeadComment = "#o", "#n"
	o0, n0 := gen.Clone(o), gen.Clone(n)
	err := actions.CombineNode(o, n)
	sym.Assert("C03", "combine-kinds-refused", err != nil)
	sym.Assert("C03", "combine-kinds-unchanged", gen.EqAll(o, o0))
	sym.Assert("C06", "combine-kinds-comments", gen.EqC(o, o0))
	sym.Assert("C02", "combine-kinds-overlay-unchanged", gen.EqAll(n, n0))
	sym.Reach("refused")
}

// CombineComments says which comments a combined scalar has.
//
//verif:check C06 C02
//verif:quick
//verif:reach combined
func CombineComments() {
	g := &gen.G{Comments: true}
	o, n := g.Scalar(), g.Scalar()
	switch sym.Choice(3) {
	case 1:
		o.Tag, o.Value, n.Tag, n.Value = "!!int", "1", "!!int", "2"
	case 2:
		o.Tag, o.Value, n.Tag, n.Value = "!!bool", "true", "!!bool", "true"
	}
	want := gen.Clone(o)
	ref.Override(want, n)
	n0 := gen.Clone(n)
	err := actions.CombineNode(o, n)
	sym.Assert("C02", "combine-overlay-unchanged", gen.EqAll(n, n0))
	sym.Assert("C06", "combine-no-error", err == nil)
	sym.Observe("o", gen.Show(o))
	sym.Assert("C06", "combine-comments", gen.EqComments(o, want))
	sym.Reach("combined")
}
