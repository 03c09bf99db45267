package c18

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"github.com/qri-io/dataset"
	"verif/mx"
	"verif/vt"
)

func TestMain(m *testing.M) {
	vt.Main(m, "case = a history of sets of standard and arbitrary keys (good and bad values, any letter case), encodes, decodes and tampering with the handed-out copy, compared after every step with a map model; non-trivial = at least two accepted sets; distinct by history")
}

func TestC18(t *testing.T) {
	vt.Check(t, "history", 30000, 600000, history)
	vt.Check(t, "decode", 16000, 320000, decode)
}

type obj = map[string]interface{}
type arr = []interface{}

// model is the metadata document: standard fields that are set, and the rest.
type model struct {
	std obj
	arb obj
}

var strFields = []string{"accessURL", "accrualPeriodicity", "description", "downloadURL", "homeURL", "identifier", "path", "qri", "readmeURL", "title", "version"}
var sliceFields = []string{"keywords", "language", "theme"}
var listFields = []string{"citations", "contributors"}

func has(list []string, k string) bool {
	for _, s := range list {
		if s == k {
			return true
		}
	}
	return false
}

// tree is the JSON document the model denotes.
func (m *model) tree() obj {
	out := obj{}
	for k, v := range m.arb {
		out[k] = v
	}
	for k, v := range m.std {
		out[k] = v
	}
	if _, ok := out["qri"]; !ok {
		out["qri"] = "md:0"
	}
	return out
}

// norm gives the value a standard field takes, nil when it is cleared.
func norm(field string, val interface{}) (interface{}, bool) {
	str := func(v interface{}) (string, bool) {
		if v == nil {
			return "", true
		}
		s, ok := v.(string)
		return s, ok
	}
	members := func(v interface{}, names ...string) (interface{}, bool) {
		m, ok := v.(obj)
		if !ok {
			return nil, false
		}
		out := obj{}
		for _, n := range names {
			s, ok := str(m[n])
			if !ok {
				return nil, false
			}
			if s != "" {
				out[n] = s
			}
		}
		return out, true
	}
	switch {
	case has(strFields, field):
		s, ok := str(val)
		if s == "" {
			return nil, ok
		}
		return s, ok
	case has(sliceFields, field):
		if val == nil {
			return nil, true
		}
		a, ok := val.(arr)
		if !ok {
			return nil, false
		}
		out := arr{}
		for _, v := range a {
			s, ok := str(v)
			if !ok {
				return nil, false
			}
			out = append(out, s)
		}
		if len(out) == 0 {
			return nil, true
		}
		return out, true
	case has(listFields, field):
		a, ok := val.(arr)
		if !ok {
			return nil, false
		}
		out := arr{}
		for _, v := range a {
			names := []string{"name", "url", "email"}
			if field == "contributors" {
				names = []string{"id", "name", "email"}
			}
			o, ok := members(v, names...)
			if !ok {
				return nil, false
			}
			out = append(out, o)
		}
		return out, true
	case field == "license":
		return members(val, "type", "url")
	}
	panic(field)
}

func genValue(c *vt.C, field string) interface{} {
	if vt.Chance(c.T, 4, "wrong") {
		return vt.Value(c.T, vt.ValOpts{Depth: 2})
	}
	str := func() interface{} {
		if vt.Chance(c.T, 8, "nilStr") {
			return nil
		}
		if vt.Chance(c.T, 12, "badStr") {
			return vt.Value(c.T, vt.ValOpts{Depth: 1})
		}
		return vt.Str(c.T, vt.StrOpts{Big: 70000})
	}
	members := func(names ...string) interface{} {
		m := obj{}
		for _, n := range names {
			if vt.Bool(c.T, "member") {
				m[n] = str()
			}
		}
		if vt.Chance(c.T, 5, "extra") {
			m["extra"] = str()
		}
		return m
	}
	n := vt.N(c.T, 0, 3, "n")
	if vt.Chance(c.T, 40, "long") {
		n = vt.N(c.T, 4, 60, "nLong")
	}
	switch {
	case has(sliceFields, field):
		a := arr{}
		for i := 0; i < n; i++ {
			a = append(a, str())
		}
		return a
	case field == "citations":
		a := arr{}
		for i := 0; i < n; i++ {
			a = append(a, members("name", "url", "email"))
		}
		return a
	case field == "contributors":
		a := arr{}
		for i := 0; i < n; i++ {
			a = append(a, members("id", "name", "email"))
		}
		return a
	case field == "license":
		return members("type", "url")
	}
	return str()
}

// spell writes a standard key in another letter case, perhaps with spaces around.
func spell(c *vt.C, k string) string {
	switch vt.N(c.T, 0, 4, "spell") {
	case 0:
		k = strings.ToUpper(k)
	case 1:
		k = strings.ToLower(k)
	case 2:
		i := vt.N(c.T, 0, len(k)-1, "upAt")
		k = k[:i] + strings.ToUpper(k[i:i+1]) + k[i+1:]
	}
	if vt.Chance(c.T, 6, "spaced") {
		k = vt.One(c.T, "space", " ", "\t", "  ") + k + vt.One(c.T, "space", "", " ", "\n")
	}
	return k
}

func compare(c *vt.C, what string, m *model, md *dataset.Meta) {
	c.Helper()
	if d := vt.Diff(m.arb, md.Meta(), vt.CmpOpts{}); d != "" {
		c.Fatalf("%s: arbitrary metadata: %s", what, d)
	}
	if d := vt.Diff(m.std, standard(md), vt.CmpOpts{}); d != "" {
		c.Fatalf("%s: standard fields: %s", what, d)
	}
}

// standard reads the standard fields that are set.
func standard(md *dataset.Meta) obj {
	out := obj{}
	str := func(k, v string) {
		if v != "" {
			out[k] = v
		}
	}
	str("accessURL", md.AccessURL)
	str("accrualPeriodicity", md.AccrualPeriodicity)
	str("description", md.Description)
	str("downloadURL", md.DownloadURL)
	str("homeURL", md.HomeURL)
	str("identifier", md.Identifier)
	str("path", md.Path)
	str("qri", md.Qri)
	str("readmeURL", md.ReadmeURL)
	str("title", md.Title)
	str("version", md.Version)
	strs := func(k string, v []string) {
		if len(v) > 0 {
			a := arr{}
			for _, s := range v {
				a = append(a, s)
			}
			out[k] = a
		}
	}
	strs("keywords", md.Keywords)
	strs("language", md.Language)
	strs("theme", md.Theme)
	member := func(o obj, k, v string) {
		if v != "" {
			o[k] = v
		}
	}
	if md.Citations != nil {
		a := arr{}
		for _, x := range md.Citations {
			if x == nil {
				a = append(a, nil)
				continue
			}
			o := obj{}
			member(o, "name", x.Name)
			member(o, "url", x.URL)
			member(o, "email", x.Email)
			a = append(a, o)
		}
		out["citations"] = a
	}
	if md.Contributors != nil {
		a := arr{}
		for _, x := range md.Contributors {
			if x == nil {
				a = append(a, nil)
				continue
			}
			o := obj{}
			member(o, "id", x.ID)
			member(o, "name", x.Fullname)
			member(o, "email", x.Email)
			a = append(a, o)
		}
		out["contributors"] = a
	}
	if md.License != nil {
		o := obj{}
		member(o, "type", md.License.Type)
		member(o, "url", md.License.URL)
		out["license"] = o
	}
	return out
}

func history(c *vt.C) {
	md := &dataset.Meta{}
	m := &model{std: obj{}, arb: obj{}}
	n := vt.N(c.T, 1, 12, "ops")
	var log []string
	accepted := 0
	for i := 0; i < n; i++ {
		if vt.Chance(c.T, 120, "many") {
			k := vt.N(c.T, 20, 1500, "keys")
			log = append(log, fmt.Sprintf("Set(many-0..many-%d)", k-1))
			for j := 0; j < k; j++ {
				key := fmt.Sprintf("many-%d", j)
				if err := md.Set(key, int64(j)); err != nil {
					c.Fatalf("%v: %v", log, err)
				}
				m.arb[key] = int64(j)
			}
			accepted++
			continue
		}
		switch op := vt.N(c.T, 0, 11, "op"); {
		case op < 5: // standard
			f := vt.One(c.T, "field", mx.StandardMeta...)
			k, val := spell(c, f), genValue(c, f)
			log = append(log, fmt.Sprintf("Set(%q,%s)", k, vt.Show(val)))
			want, ok := norm(f, val)
			err := md.Set(k, vt.Clone(val))
			if ok != (err == nil) {
				c.Fatalf("%v: error %v, want accepted=%v", log, err, ok)
			}
			if ok {
				accepted++
				if want == nil {
					delete(m.std, f)
				} else {
					m.std[f] = want
				}
			} else {
				c.Label("rejected")
			}
		case op < 8: // arbitrary
			k, val := mx.ArbKey(c.T), mx.Free(c.T, 2)
			if vt.Chance(c.T, 4, "near") {
				if k = near(c); mx.IsStandard(k) {
					k = "z" + k
				}
			}
			var err error
			if vt.Bool(c.T, "direct") {
				log = append(log, fmt.Sprintf("SetArbitrary(%q,%s)", k, vt.Show(val)))
				err = md.SetArbitrary(k, vt.Clone(val))
			} else {
				log = append(log, fmt.Sprintf("Set(%q,%s)", k, vt.Show(val)))
				err = md.Set(k, vt.Clone(val))
			}
			if err != nil {
				c.Fatalf("%v: %v", log, err)
			}
			m.arb[k] = val
			accepted++
			c.Label("arbitrary")
		case op == 8: // tamper with the copy
			log = append(log, "tamper")
			cp := md.Meta()
			for k := range cp {
				if vt.Bool(c.T, "del") {
					delete(cp, k)
				} else {
					cp[k] = "tampered"
				}
			}
			cp["added"] = true
			cp["title"] = "tampered"
		default: // encode and decode
			log = append(log, "coding")
			data, err := json.Marshal(md)
			if err != nil {
				c.Fatalf("%v: %v", log, err)
			}
			var tree interface{}
			if err := json.Unmarshal(data, &tree); err != nil {
				c.Fatalf("%v: %v", log, err)
			}
			var want interface{} = m.tree()
			_, bare := tree.(string)
			if bare {
				// a reference: nothing but the path may be set
				for k := range m.std {
					if k != "path" && k != "qri" {
						c.Fatalf("%v: %s lost, encoded as %s", log, k, data)
					}
				}
				if len(m.arb) > 0 {
					c.Fatalf("%v: arbitrary metadata lost, encoded as %s", log, data)
				}
				want = m.std["path"]
			}
			if d := vt.Diff(want, tree, vt.CmpOpts{}); d != "" {
				c.Fatalf("%v: encoded as %s: %s", log, data, d)
			}
			nm := &dataset.Meta{}
			if err := json.Unmarshal(data, nm); err != nil {
				c.Fatalf("%v: %v", log, err)
			}
			if bare {
				delete(m.std, "qri")
			} else if _, ok := m.std["qri"]; !ok {
				m.std["qri"] = "md:0"
			}
			md = nm
			c.Label("coding")
		}
		compare(c, fmt.Sprint(log), m, md)
	}
	if accepted >= 2 {
		c.NonTrivial(fmt.Sprint(log))
	}
	c.Sample("%v", log)
}

// decode reads a document of any keys and splits it into standard and arbitrary ones.
func decode(c *vt.C) {
	m := &model{std: obj{}, arb: obj{}}
	doc := obj{}
	for i, n := 0, vt.N(c.T, 0, 5, "std"); i < n; i++ {
		f := vt.One(c.T, "field", mx.StandardMeta...)
		val := genValue(c, f)
		want, ok := norm(f, val)
		if !ok || want == nil || hasNull(val) {
			continue
		}
		// one spelling per field
		if _, dup := m.std[f]; dup {
			continue
		}
		k := f
		if vt.Bool(c.T, "case") {
			k = strings.TrimSpace(spell(c, f))
			switch vt.N(c.T, 0, 19, "fold") { // letters encoding/json takes for s and k
			case 0:
				k = strings.Replace(k, "s", "\u017f", 1)
			case 1:
				k = strings.Replace(k, "k", "\u212a", 1)
			}
		}
		doc[k] = val
		m.std[f] = want
	}
	for i, n := 0, vt.N(c.T, 0, 4, "arb"); i < n; i++ {
		k, v := mx.ArbKey(c.T), mx.Free(c.T, 2)
		if vt.Chance(c.T, 3, "near") {
			k = near(c)
		}
		doc[k] = v
		m.arb[k] = v
	}
	data, err := json.Marshal(doc)
	if err != nil {
		c.Fatalf("%v", err)
	}
	md := &dataset.Meta{}
	if err := json.Unmarshal(data, md); err != nil {
		c.Fatalf("decode %s: %v", data, err)
	}
	compare(c, string(data), m, md)
	// and once more through its own encoding
	if again, err := json.Marshal(md); err != nil {
		c.Fatalf("encoding what %s decoded to: %v", data, err)
	} else if len(m.arb) > 0 {
		md = &dataset.Meta{}
		if err := json.Unmarshal(again, md); err != nil {
			c.Fatalf("decode %s: %v", again, err)
		}
		if d := vt.Diff(m.arb, md.Meta(), vt.CmpOpts{}); d != "" {
			c.Fatalf("%s decoded, encoded as %s and decoded: arbitrary metadata: %s", data, again, d)
		}
	}
	if len(doc) >= 2 {
		c.NonTrivial(data)
	}
	c.Sample("%s", data)
}

// near draws a key that resembles a standard one but is none.
func near(c *vt.C) string {
	f := vt.One(c.T, "of", mx.StandardMeta...)
	switch vt.N(c.T, 0, 7, "near") {
	case 0:
		f = " " + f
	case 1:
		f += " "
	case 2:
		f += "s"
	case 3:
		f = f[:len(f)-1]
	case 4:
		f = "_" + f
	case 5:
		f += vt.One(c.T, "tail", "\n", "\x00", ".", "Url", "2")
	case 6:
		f = f[1:]
	case 7:
		i := vt.N(c.T, 0, len(f), "cut")
		f = f[:i] + vt.One(c.T, "sep", "_", "-", " ", ".") + f[i:]
	}
	for _, s := range mx.StandardMeta {
		if strings.EqualFold(s, f) {
			f += "z"
		}
	}
	return f
}

func hasNull(v interface{}) bool {
	switch x := v.(type) {
	case nil:
		return true
	case arr:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	case obj:
		for _, e := range x {
			if hasNull(e) {
				return true
			}
		}
	}
	return false
}
