package siming

import (
	"encoding/json"
	"fmt"
	"sort"
)

// bads replace a value in a block.
var bads = []string{`null`, `true`, `1`, `-1`, `1e300`, `""`, `"x"`, `[]`, `{}`, `[null]`, `{"x":1}`, `{"/":"x"}`, `{"/":{"bytes":""}}`, `{"/":{"bytes":"AAAA"}}`, `{"/":{"bytes":"!"}}`}

// Alters gives every alteration of a JSON text in which one value is replaced,
// removed or doubled.
func Alters(text []byte) (res [][]byte) {
	var v interface{}
	if err := json.Unmarshal(text, &v); err != nil {
		panic(err)
	}
	var gen func(v interface{}, wrap func(raw string))
	enc := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	gen = func(v interface{}, wrap func(string)) {
		for _, b := range bads {
			wrap(b)
		}
		switch x := v.(type) {
		case map[string]interface{}:
			var keys []string
			for k := range x {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			obj := func(skip int, raw string, more string) string {
				s, sep := "{", ""
				for i, k := range keys {
					if i == skip && raw == "" {
						continue
					}
					val := enc(x[k])
					if i == skip {
						val = raw
					}
					s += sep + enc(k) + ":" + val
					sep = ","
				}
				return s + more + "}"
			}
			for i, k := range keys {
				i := i
				wrap(obj(i, "", ""))                                        // removed
				wrap(obj(-1, "", fmt.Sprintf(",%s:%s", enc(k), enc(x[k])))) // doubled
				gen(x[k], func(raw string) { wrap(obj(i, raw, "")) })
			}
			wrap(obj(-1, "", `,"Zz":1`))
		case []interface{}:
			list := func(skip int, raw string) string {
				s, sep := "[", ""
				for i, e := range x {
					if i == skip && raw == "" {
						continue
					}
					val := enc(e)
					if i == skip {
						val = raw
					}
					s += sep + val
					sep = ","
				}
				return s + "]"
			}
			for i, e := range x {
				i := i
				wrap(list(i, ""))
				gen(e, func(raw string) { wrap(list(i, raw)) })
			}
		}
	}
	gen(v, func(raw string) { res = append(res, []byte(raw)) })
	return
}

// Flips gives every alteration of data in which it is cut off or one byte is
// changed.
func Flips(data []byte) (res [][]byte) {
	for i := range data {
		res = append(res, data[:i:i])
	}
	for i, b := range data {
		for _, v := range []byte{0, 0xff, b ^ 1, b ^ 0x80, b + 1} {
			if v != b {
				c := append([]byte(nil), data...)
				c[i] = v
				res = append(res, c)
			}
		}
	}
	return append(res, append(append([]byte(nil), data...), data...), append(append([]byte(nil), data...), 0))
}
