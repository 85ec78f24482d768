package vfs

import (
	"fmt"
	"strings"
)

// piece is text or an action of a template.
type piece struct {
	text   string
	action bool
}

func pieces(t string) []piece {
	var out []piece
	cut := false // blanks after the last action are cut
	for {
		i := strings.Index(t, "{{")
		text := t
		if i >= 0 {
			text = t[:i]
		}
		if cut {
			text = strings.TrimLeft(text, " \t\r\n")
		}
		if i < 0 {
			return append(out, piece{text, false})
		}
		j := strings.Index(t[i:], "}}")
		if j < 0 {
			return append(out, piece{text, false}, piece{"", true})
		}
		action := t[i+2 : i+j]
		if strings.HasPrefix(action, "- ") {
			action = action[2:]
			text = strings.TrimRight(text, " \t\r\n")
		}
		cut = strings.HasSuffix(action, " -")
		action = strings.TrimSpace(strings.TrimSuffix(action, " -"))
		out = append(out, piece{text, false})
		if !strings.HasPrefix(action, "/*") {
			out = append(out, piece{action, true})
		}
		t = t[i+j+2:]
	}
}

var functions = map[string]bool{"toJson": true, "upper": true, "quote": true, "default": true, "eq": true, "not": true, "lower": true, "nindent": true, "trim": true}

// checkTemplate is what parsing finds out: actions that are not closed, functions that do not exist.
func checkTemplate(t string, sprig bool) error {
	depth := 0
	for _, p := range pieces(t) {
		if !p.action {
			continue
		}
		if p.text == "" {
			return fmt.Errorf("template: unclosed action")
		}
		words := strings.Fields(strings.Replace(p.text, "|", " | ", -1))
		for i, w := range words {
			switch {
			case i == 0 && (w == "if" || w == "range" || w == "with"):
				depth++
			case i == 0 && w == "end":
				depth--
			case i == 0 && w == "else":
			case w == "|" || w[0] == '$' || w[0] >= '0' && w[0] <= '9' || strings.HasPrefix(w, ".") || strings.HasPrefix(w, "\""):
			case w == "eq" || w == "not":
			case !functions[w] || !sprig:
				return fmt.Errorf("template: function %q not defined", w)
			}
		}
		if depth < 0 {
			return fmt.Errorf("template: unexpected {{end}}")
		}
	}
	if depth > 0 {
		return fmt.Errorf("template: unexpected EOF")
	}
	return nil
}

// missing is what a key that is not there yields.
type missing struct{}

// render is the text of the pieces up to an end or else that belongs to someone else, and the pieces from there on. If
// an action fails it is the text until then.
func render(ps []piece, root, dot interface{}, strict bool) (string, []piece, error) {
	out := ""
	for len(ps) > 0 {
		p := ps[0]
		ps = ps[1:]
		if !p.action {
			out += p.text
			continue
		}
		words := strings.Fields(strings.Replace(p.text, "|", " | ", -1))
		switch words[0] {
		case "end", "else":
			return out, append([]piece{p}, ps...), nil
		case "if", "range", "with":
			v, err := pipeline(words[1:], root, dot, strict)
			if err != nil {
				return out, nil, err
			}
			body, rest := ps, []piece(nil)
			ran := false
			each := []interface{}{v}
			switch {
			case words[0] == "if":
				each[0] = dot
			case words[0] == "range":
				each, _ = v.([]interface{})
			}
			if truth(v) {
				for _, d := range each {
					t, r, err := render(body, root, d, strict)
					if err != nil {
						return out + t, nil, err
					}
					out, rest, ran = out+t, r, true
				}
			}
			if !ran {
				if rest, err = skip(body); err != nil {
					return out, nil, err
				}
			}
			if rest[0].text == "else" {
				if ran {
					if rest, err = skip(rest[1:]); err != nil {
						return out, nil, err
					}
				} else {
					t, r, err := render(rest[1:], root, dot, strict)
					if err != nil {
						return out + t, nil, err
					}
					out, rest = out+t, r
				}
			}
			ps = rest[1:]
		default:
			v, err := pipeline(words, root, dot, strict)
			if err != nil {
				return out, nil, err
			}
			out += printed(v)
		}
	}
	return out, nil, nil
}

// skip is the pieces from the end or else of the present body on.
func skip(ps []piece) ([]piece, error) {
	depth := 0
	for i, p := range ps {
		if !p.action {
			continue
		}
		switch strings.Fields(p.text)[0] {
		case "if", "range", "with":
			depth++
		case "else":
			if depth == 0 {
				return ps[i:], nil
			}
		case "end":
			if depth == 0 {
				return ps[i:], nil
			}
			depth--
		}
	}
	return nil, fmt.Errorf("template: unexpected EOF")
}

func pipeline(words []string, root, dot interface{}, strict bool) (interface{}, error) {
	var last []interface{}
	for len(words) > 0 {
		n := 0
		for n < len(words) && words[n] != "|" {
			n++
		}
		cmd := words[:n]
		words = words[n:]
		if len(words) > 0 {
			words = words[1:]
		}
		var args []interface{}
		name := ""
		if functions[cmd[0]] {
			name, cmd = cmd[0], cmd[1:]
		}
		for _, w := range cmd {
			if strings.HasPrefix(w, "\"") {
				args = append(args, strings.Trim(w, "\""))
				continue
			}
			if w[0] >= '0' && w[0] <= '9' {
				args = append(args, int(w[0]-'0'))
				continue
			}
			from := dot
			if w[0] == '$' {
				w, from = w[1:], root
			}
			v, err := chain(w, from, strict)
			if err != nil {
				return nil, err
			}
			args = append(args, v)
		}
		args = append(args, last...)
		v := args[0]
		switch name {
		case "toJson":
			t, ok := JSON(plain(v))
			if !ok {
				t = ""
			}
			v = t
		case "upper":
			t, ok := plain(v).(string)
			if !ok {
				return nil, fmt.Errorf("template: error calling upper: wrong type")
			}
			v = strings.ToUpper(t)
		case "quote":
			if plain(v) == nil {
				v = ""
			} else {
				v = "\"" + printed(v) + "\""
			}
		case "eq":
			v = args[0] == args[1]
		case "not":
			v = !truth(args[0])
		case "lower":
			t, ok := plain(v).(string)
			if !ok {
				return nil, fmt.Errorf("template: error calling lower: wrong type")
			}
			v = strings.ToLower(t)
		case "trim":
			t, ok := plain(v).(string)
			if !ok {
				return nil, fmt.Errorf("template: error calling trim: wrong type")
			}
			v = strings.TrimSpace(t)
		case "nindent":
			t, ok := plain(args[1]).(string)
			if !ok {
				return nil, fmt.Errorf("template: error calling nindent: wrong type")
			}
			pad := strings.Repeat(" ", args[0].(int))
			v = "\n" + pad + strings.Replace(t, "\n", "\n"+pad, -1)
		case "default":
			if truth(args[1]) {
				v = args[1]
			}
		}
		last = []interface{}{v}
	}
	return last[0], nil
}

func plain(v interface{}) interface{} {
	if _, ok := v.(missing); ok {
		return nil
	}
	return v
}

// chain looks up fields.
func chain(w string, dot interface{}, strict bool) (interface{}, error) {
	v := dot
	for _, k := range strings.Split(w, ".")[1:] {
		if k == "" {
			continue
		}
		m, ok := v.(map[string]interface{})
		if !ok {
			return nil, fmt.Errorf("template: can't evaluate field %s", k)
		}
		c, ok := m[k]
		if !ok {
			if strict {
				return nil, fmt.Errorf("template: map has no entry for key %q", k)
			}
			v = missing{}
			continue
		}
		v = c
	}
	return v, nil
}

func truth(v interface{}) bool {
	switch x := v.(type) {
	case nil, missing:
		return false
	case bool:
		return x
	case string:
		return x != ""
	case int:
		return x != 0
	case []interface{}:
		return len(x) > 0
	case map[string]interface{}:
		return len(x) > 0
	}
	return true
}

func printed(v interface{}) string {
	switch v.(type) {
	case nil, missing:
		return "<no value>"
	}
	return fmt.Sprint(v)
}
