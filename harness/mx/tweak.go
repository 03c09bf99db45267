package mx

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"time"

	"pgregory.net/rapid"
	"verif/vt"
)

type site struct {
	path  string
	apply func(t *rapid.T)
}

// Tweak makes one small change somewhere inside a document or free-form value
// (a letter, the last bit of a number, the order of two elements, a key) and
// tells where, or "" if there is nothing to change.
func Tweak(t *rapid.T, v interface{}) string {
	var sites []site
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Ptr && !rv.IsNil() {
		walkSites(&sites, "", rv.Elem(), func(reflect.Value) {})
	} else {
		walkSites(&sites, "", rv, nil)
	}
	if len(sites) == 0 {
		return ""
	}
	s := sites[vt.N(t, 0, len(sites)-1, "tweakSite")]
	s.apply(t)
	return s.path
}

// walkSites lists the changeable places in v. set stores a changed value; it is
// nil where none can be stored, and v is set directly when addressable.
func walkSites(out *[]site, p string, v reflect.Value, set func(reflect.Value)) {
	put := func(x reflect.Value) {
		if v.CanSet() {
			v.Set(x)
		} else if set != nil {
			set(x)
		}
	}
	add := func(f func(t *rapid.T)) { *out = append(*out, site{p, f}) }
	can := v.CanSet() || set != nil
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			walkSites(out, p, v.Elem(), nil)
		}
	case reflect.Interface:
		if !v.IsNil() {
			if to := lookalike(v.Elem().Interface()); to != nil && can {
				add(func(*rapid.T) { put(reflect.ValueOf(to)) })
			}
			walkSites(out, p, v.Elem(), func(x reflect.Value) { put(x) })
		}
	case reflect.Struct:
		if tm, ok := v.Interface().(time.Time); ok {
			if can && !tm.IsZero() {
				add(func(t *rapid.T) {
					put(reflect.ValueOf(tm.Add(time.Second << uint(vt.N(t, 0, 20, "later")))))
				})
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if f := v.Type().Field(i); f.PkgPath == "" {
				walkSites(out, p+"."+f.Name, v.Field(i), nil)
			}
		}
	case reflect.Map:
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
		for _, k := range keys {
			k := k
			el := v.MapIndex(k)
			walkSites(out, fmt.Sprintf("%s[%q]", p, k.String()), el, func(x reflect.Value) { v.SetMapIndex(k, x) })
			add(func(t *rapid.T) { // rename the key
				nk := k.String() + vt.One(t, "keyTail", " ", "x", "\x00")
				if vt.Bool(t, "keyCase") && strings.ToUpper(k.String()) != k.String() {
					nk = strings.ToUpper(k.String())
				}
				v.SetMapIndex(k, reflect.Value{})
				v.SetMapIndex(reflect.ValueOf(nk).Convert(k.Type()), el)
			})
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			walkSites(out, fmt.Sprintf("%s[%d]", p, i), v.Index(i), nil)
			if i > 0 && !reflect.DeepEqual(v.Index(i).Interface(), v.Index(i-1).Interface()) {
				i := i
				add(func(t *rapid.T) {
					x, y := reflect.ValueOf(v.Index(i).Interface()), reflect.ValueOf(v.Index(i-1).Interface())
					z := reflect.Zero(v.Type().Elem())
					if !x.IsValid() {
						x = z
					}
					if !y.IsValid() {
						y = z
					}
					v.Index(i).Set(y)
					v.Index(i - 1).Set(x)
				})
			}
		}
		if v.Len() > 0 && can {
			add(func(t *rapid.T) { put(reflect.Append(v.Slice3(0, v.Len(), v.Len()), v.Index(v.Len()-1))) })
		}
	case reflect.String:
		if s := v.String(); s != "" && can {
			add(func(t *rapid.T) {
				x := s
				switch vt.N(t, 0, 4, "tweak") {
				case 0:
					x = strings.ToUpper(s)
				case 1:
					x = strings.ToLower(s)
				case 2:
					x = s + vt.One(t, "tail", " ", "/", ".", "0", "\n")
				case 3:
					x = vt.One(t, "lead", " ", "/", "@", "0") + s
				}
				if x == s {
					x = s + "~"
				}
				put(reflect.ValueOf(x).Convert(v.Type()))
			})
		}
	case reflect.Bool:
		if can {
			add(func(t *rapid.T) { put(reflect.ValueOf(!v.Bool()).Convert(v.Type())) })
		}
	case reflect.Int, reflect.Int64, reflect.Int32:
		if can {
			add(func(t *rapid.T) {
				d := int64(1)
				if v.Int() == math.MaxInt64 || vt.Bool(t, "down") {
					d = -1
				}
				put(reflect.ValueOf(v.Int() + d).Convert(v.Type()))
			})
		}
	case reflect.Float64:
		if f := v.Float(); can && !math.IsNaN(f) && !math.IsInf(f, 0) {
			add(func(t *rapid.T) {
				to := math.Inf(1)
				if f > 0 && vt.Bool(t, "down") {
					to = math.Inf(-1)
				}
				x := math.Nextafter(f, to)
				if f == math.MaxFloat64 {
					x = math.Nextafter(f, 0)
				}
				if vt.Bool(t, "coarse") && f+1 != f {
					x = f + 1
				}
				put(reflect.ValueOf(x).Convert(v.Type()))
			})
		}
	}
}

// lookalike is another value that prints the same, nil if there is none.
func lookalike(v interface{}) interface{} {
	switch x := v.(type) {
	case string:
		switch x {
		case "true", "false":
			return x == "true"
		}
		if n, err := strconv.ParseInt(x, 10, 32); err == nil && strconv.FormatInt(n, 10) == x {
			return n
		}
	case bool:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case float64:
		return fmt.Sprint(x)
	case []interface{}:
		if len(x) == 1 {
			if s, ok := x[0].(string); ok && strings.Contains(s, " ") {
				out := []interface{}{}
				for _, p := range strings.Split(s, " ") {
					out = append(out, p)
				}
				return out
			}
		}
	}
	return nil
}
