package vfs

import (
	"errors"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"
	"text/template"

	"github.com/Masterminds/sprig/v3"
	"github.com/vmware-tanzu-labs/yaml-overlay-tool/internal/zzverif/gen"
	"gopkg.in/yaml.v3"
)

// Symbolically a template is the text of an instructions file: actions may stand in any scalar, each scalar a template of
// its own, in the part of the template language that render knows. Natively it is the real thing.

// All prints all values.
const All = "{{toJson .}}"

type templates struct {
	name   string
	funcs  bool
	strict bool
	texts  map[string]string
}

var tpls map[*template.Template]*templates

var errTemplate = errors.New("template: function \"toJson\" not defined")

//verif:stub template text/template.New
func templateNew(name string) *template.Template {
	if tpls == nil {
		tpls = map[*template.Template]*templates{}
	}
	t := new(template.Template)
	tpls[t] = &templates{name: name, texts: map[string]string{}}
	return t
}

//verif:stub template text/template.ParseFiles
func templateParseFilesNew(names ...string) (*template.Template, error) {
	if len(names) == 0 {
		return nil, errors.New("template: no files named in call to ParseFiles")
	}
	return templateParseFiles(templateNew(path.Base(names[0])), names...)
}

//verif:stub template (*text/template.Template).Funcs
func templateFuncs(t *template.Template, m template.FuncMap) *template.Template {
	tpls[t].funcs = true
	return t
}

//verif:stub template (*text/template.Template).Option
func templateOption(t *template.Template, opt ...string) *template.Template {
	for _, o := range opt {
		switch o {
		case "missingkey=error":
			tpls[t].strict = true
		case "missingkey=default", "missingkey=invalid", "missingkey=zero":
			tpls[t].strict = false
		default:
			panic("unrecognized option: " + o)
		}
	}
	return t
}

//verif:stub template (*text/template.Template).Name
func templateName(t *template.Template) string { return tpls[t].name }

//verif:stub template (*text/template.Template).Parse
func templateParse(t *template.Template, text string) (*template.Template, error) {
	return t, tpls[t].add(tpls[t].name, text)
}

//verif:stub template (*text/template.Template).ParseFiles
func templateParseFiles(t *template.Template, names ...string) (*template.Template, error) {
	for _, n := range names {
		b, err := readFile(n)
		if err != nil {
			return nil, err
		}
		if err := tpls[t].add(path.Base(n), string(b)); err != nil {
			return nil, err
		}
	}
	return t, nil
}

// add parses a template.
func (s *templates) add(name, text string) error {
	if Plain {
		s.texts[name] = text
		return checkTemplate(text, s.funcs)
	}
	docs, err := parse(text)
	if err != nil {
		return err
	}
	for _, d := range docs {
		for _, n := range gen.Nodes(d) {
			if n.Kind == yaml.ScalarNode && strings.Contains(n.Value, "{{") {
				if err := checkTemplate(n.Value, s.funcs); err != nil {
					return err
				}
			}
		}
	}
	s.texts[name] = text
	return nil
}

//verif:stub template (*text/template.Template).Execute
func templateExecute(t *template.Template, w io.Writer, data interface{}) error {
	return templateExecuteNamed(t, w, tpls[t].name, data)
}

//verif:stub template (*text/template.Template).ExecuteTemplate
func templateExecuteNamed(t *template.Template, w io.Writer, name string, data interface{}) error {
	text, ok := tpls[t].texts[name]
	if !ok {
		return fmt.Errorf("template: %q is an incomplete or empty template", name)
	}
	if Plain {
		out, _, err := render(pieces(text), data, data, tpls[t].strict)
		if _, werr := w.Write([]byte(out)); werr != nil {
			return werr
		}
		return err
	}
	docs, err := parse(text)
	if err != nil {
		return err
	}
	out := ""
	for i, d := range docs {
		for _, n := range gen.Nodes(d) {
			if n.Kind == yaml.ScalarNode && strings.Contains(n.Value, "{{") {
				if n.Value, _, err = render(pieces(n.Value), data, data, tpls[t].strict); err != nil {
					return err
				}
			}
		}
		if i > 0 {
			out += "---\n"
		}
		out += put(d)
	}
	_, err = w.Write([]byte(out))
	return err
}

//verif:stub template github.com/Masterminds/sprig/v3.TxtFuncMap
func txtFuncMap() map[string]interface{} { return nil }

//verif:stub template github.com/Masterminds/sprig/v3.FuncMap
func funcMap() template.FuncMap { return nil }

var _ = sprig.TxtFuncMap

// JSON is the text of a value made of words and numbers; ok says that there is one.
func JSON(v interface{}) (text string, ok bool) {
	switch x := v.(type) {
	case nil:
		return "null", true
	case string:
		return "\"" + x + "\"", true
	case int:
		return strconv.Itoa(x), true
	case bool:
		return strconv.FormatBool(x), true
	case []interface{}:
		t := ""
		for i, c := range x {
			if i > 0 {
				t += ","
			}
			s, ok := JSON(c)
			if !ok {
				return "", false
			}
			t += s
		}
		return "[" + t + "]", true
	case map[string]interface{}:
		var keys []string
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		t := ""
		for i, k := range keys {
			if i > 0 {
				t += ","
			}
			s, ok := JSON(x[k])
			if !ok {
				return "", false
			}
			t += "\"" + k + "\":" + s
		}
		return "{" + t + "}", true
	}
	return "", false
}
