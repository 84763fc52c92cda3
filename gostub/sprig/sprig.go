// Package sprig is a stand-in with the functions metac's templates use.
package sprig

import (
	"encoding/json"
	"errors"
	"fmt"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"text/template"

	"github.com/huandu/xstrings"
)

func strval(v interface{}) string {
	switch v := v.(type) {
	case string:
		return v
	case []byte:
		return string(v)
	case error:
		return v.Error()
	case fmt.Stringer:
		return v.String()
	default:
		return fmt.Sprintf("%v", v)
	}
}

// TxtFuncMap returns the map of functions.
func TxtFuncMap() template.FuncMap {
	return template.FuncMap{
		"append": func(list interface{}, v interface{}) ([]interface{}, error) {
			l := reflect.ValueOf(list)
			if k := l.Kind(); k != reflect.Slice && k != reflect.Array {
				return nil, fmt.Errorf("cannot push on type %s", k)
			}
			r := make([]interface{}, 0, l.Len()+1)
			for i := 0; i < l.Len(); i++ {
				r = append(r, l.Index(i).Interface())
			}
			return append(r, v), nil
		},
		"atoi": func(a string) int { i, _ := strconv.Atoi(a); return i },
		"dict": func(v ...interface{}) map[string]interface{} {
			d := map[string]interface{}{}
			for i := 0; i < len(v); i += 2 {
				if i+1 >= len(v) {
					d[strval(v[i])] = ""
					continue
				}
				d[strval(v[i])] = v[i+1]
			}
			return d
		},
		"fail": func(msg string) (string, error) { return "", errors.New(msg) },
		"get": func(d map[string]interface{}, key string) interface{} {
			if v, ok := d[key]; ok {
				return v
			}
			return ""
		},
		"has": func(needle interface{}, haystack interface{}) (bool, error) {
			if haystack == nil {
				return false, nil
			}
			l := reflect.ValueOf(haystack)
			if k := l.Kind(); k != reflect.Slice && k != reflect.Array {
				return false, fmt.Errorf("cannot find has on type %s", k)
			}
			for i := 0; i < l.Len(); i++ {
				if reflect.DeepEqual(needle, l.Index(i).Interface()) {
					return true, nil
				}
			}
			return false, nil
		},
		"hasKey":    func(d map[string]interface{}, key string) bool { _, ok := d[key]; return ok },
		"hasPrefix": func(substr string, str string) bool { return strings.HasPrefix(str, substr) },
		"indent": func(spaces int, v string) string {
			pad := strings.Repeat(" ", spaces)
			return pad + strings.Replace(v, "\n", "\n"+pad, -1)
		},
		"list":   func(v ...interface{}) []interface{} { return v },
		"tuple":  func(v ...interface{}) []interface{} { return v },
		"osBase": filepath.Base,
		"quote": func(str ...interface{}) string {
			out := make([]string, 0, len(str))
			for _, s := range str {
				if s != nil {
					out = append(out, fmt.Sprintf("%q", strval(s)))
				}
			}
			return strings.Join(out, " ")
		},
		"regexReplaceAll": func(regex string, s string, repl string) string {
			return regexp.MustCompile(regex).ReplaceAllString(s, repl)
		},
		"regexSplit": func(regex string, s string, n int) []string { return regexp.MustCompile(regex).Split(s, n) },
		"set": func(d map[string]interface{}, key string, value interface{}) map[string]interface{} {
			d[key] = value
			return d
		},
		"snakecase":    xstrings.ToSnakeCase,
		"toJson":       func(v interface{}) string { o, _ := json.Marshal(v); return string(o) },
		"toPrettyJson": func(v interface{}) string { o, _ := json.MarshalIndent(v, "", "  "); return string(o) },
		"toString":     strval,
		"trimPrefix":   func(a, b string) string { return strings.TrimPrefix(b, a) },
		"upper":        strings.ToUpper,
		"lower":        strings.ToLower,
		"trim":         strings.TrimSpace,
		"b64enc":       func(s string) string { return s },
	}
}
