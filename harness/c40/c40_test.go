package c40

import (
	"bytes"
	"context"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/qri-io/dataset"
	"verif/dx"
	"verif/vt"
)

var scratch, binary string

func TestMain(m *testing.M) {
	var err error
	if scratch, err = os.MkdirTemp("", "c40"); err != nil {
		panic(err)
	}
	binary = filepath.Join(scratch, "dsgen")
	b := exec.Command("go", "build", "-o", binary, "./generate/dsgen")
	b.Dir = vt.Repo()
	b.Env = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOWORK=off")
	if out, err := b.CombinedOutput(); err != nil {
		fmt.Printf("building dsgen: %v\n%s", err, out)
		os.Exit(2)
	}
	vt.Main(m, "case = a run of the generator command: a CSV structure drawn from the generator or the fixed table, flags in a drawn form and place, and a number of rows; or a run that has to fail; non-trivial = at least one row, or a failure; distinct by structure, arguments and row count")
}

func TestC40(t *testing.T) {
	defer os.RemoveAll(scratch)
	vt.Check(t, "tables", 2400, 40000, tables)
	vt.Check(t, "fixed", 600, 8000, fixed)
	vt.Check(t, "fails", 900, 12000, fails)
	vt.Check(t, "many", 12, 120, many)
}

type result struct {
	out, diag []byte
	code      int
}

// dsgen runs the command in a scratch directory.
func dsgen(c *vt.C, stdout *os.File, args ...string) result {
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, binary, args...)
	cmd.Dir = scratch
	var out, diag bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &diag
	if stdout != nil {
		cmd.Stdout = stdout
	}
	err := cmd.Run()
	if ctx.Err() != nil {
		c.Fatalf("dsgen %q did not end within two minutes", args)
	}
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		c.Fatalf("running dsgen: %v", err)
	}
	return result{out.Bytes(), diag.Bytes(), cmd.ProcessState.ExitCode()}
}

// command draws the arguments asking for n rows of what, n < 0 leaving the number out.
func command(c *vt.C, what string, n int) []string {
	if n < 0 {
		return []string{what}
	}
	dash := []string{"-", "--"}[vt.N(c.T, 0, 1, "dashes")]
	flags := []string{dash + "rows", strconv.Itoa(n)}
	if vt.Bool(c.T, "equals") {
		flags = []string{fmt.Sprintf("%srows=%d", dash, n)}
	}
	if vt.Bool(c.T, "after") {
		return append([]string{what}, flags...)
	}
	return append(flags, what)
}

func rows(c *vt.C) int {
	switch vt.N(c.T, 0, 19, "rowsKind") {
	case 0:
		return -1
	case 1:
		return 0
	case 2:
		return vt.N(c.T, 100, 1500, "manyRows")
	}
	return vt.N(c.T, 1, 40, "rows")
}

var types = []string{"string", "number", "integer", "boolean", "null", "object", "array"}

func structure(c *vt.C) (*dataset.Structure, []string) {
	n := vt.N(c.T, 1, 6, "columns")
	cols := []string{}
	items := []interface{}{}
	for i := 0; i < n; i++ {
		ty := types[vt.N(c.T, 0, len(types)-1, "type")]
		cols = append(cols, ty)
		items = append(items, dx.Obj{"title": fmt.Sprintf("c%d", i), "type": ty})
	}
	st := &dataset.Structure{Format: "csv", Compression: dx.Comp(c.T), Schema: dx.Obj{
		"type":  "array",
		"items": dx.Obj{"type": "array", "items": items},
	}}
	cfg := dx.Obj{}
	if vt.Bool(c.T, "header") {
		cfg["headerRow"] = true
	}
	if vt.Chance(c.T, 3, "sepSet") {
		cfg["separator"] = []string{";", "\t", "|", ":"}[vt.N(c.T, 0, 3, "sep")]
	}
	if vt.Chance(c.T, 4, "lazy") {
		cfg["lazyQuotes"] = true
	}
	if len(cfg) > 0 {
		st.FormatConfig = cfg
	}
	return st, cols
}

func isType(v interface{}, name string) bool {
	switch name {
	case "string":
		_, ok := v.(string)
		return ok
	case "boolean":
		_, ok := v.(bool)
		return ok
	case "integer":
		_, ok := v.(int64)
		_, ok2 := v.(int)
		return ok || ok2
	case "number":
		switch x := v.(type) {
		case float64:
			return !math.IsNaN(x) && !math.IsInf(x, 0)
		case int, int64:
			return true
		}
		return false
	case "object":
		_, ok := v.(map[string]interface{})
		return ok
	case "array":
		_, ok := v.([]interface{})
		return ok
	}
	return v == nil
}

func save(c *vt.C, data []byte) string {
	f, err := os.CreateTemp(scratch, "*.json")
	if err != nil {
		c.Fatalf("scratch file: %v", err)
	}
	f.Write(data)
	f.Close()
	return f.Name()
}

// tables: the command prints a body of the structure it is given, with as many rows as asked for.
func tables(c *vt.C) {
	st, cols := structure(c)
	data, err := json.Marshal(st)
	if err != nil {
		c.Fatalf("encoding structure: %v", err)
	}
	path := save(c, data)
	defer os.Remove(path)
	n := rows(c)
	args := command(c, path, n)
	if n < 0 {
		n = 1000
	}
	if n > 0 {
		c.NonTrivial(string(data), n, len(args), args[0] == path)
	}
	c.Labelf("compression %q", st.Compression)
	r := dsgen(c, nil, args...)
	if r.code != 0 {
		c.Fatalf("dsgen %q with structure %s: exit %d: %s%s", args, data, r.code, vt.Trunc(string(r.out), 300), vt.Trunc(string(r.diag), 300))
	}
	ents, err := dx.Read(st, bytes.NewReader(r.out), n+2)
	if err != nil {
		c.Fatalf("reading what dsgen %q with structure %s printed: %v\n%s", args, data, err, vt.Trunc(string(r.out), 400))
	}
	if len(ents) != n {
		c.Fatalf("dsgen %q with structure %s printed %d rows, want %d\n%s", args, data, len(ents), n, vt.Trunc(string(r.out), 400))
	}
	for i, e := range ents {
		row, ok := e.Value.([]interface{})
		if !ok || len(row) != len(cols) {
			c.Fatalf("row %d of structure %s is %s, want %d cells", i, data, vt.Show(e.Value), len(cols))
		}
		for j, v := range row {
			if !isType(v, cols[j]) {
				c.Fatalf("row %d cell %d of structure %s is %T %s, want %s", i, j, data, v, vt.Show(v), cols[j])
			}
		}
	}
}

// fixed: the fixed table has the header and rows the command documents.
func fixed(c *vt.C) {
	n := rows(c)
	args := command(c, "fixed", n)
	if n < 0 {
		n = 1000
	}
	if n > 0 {
		c.NonTrivial(n, strings.Join(args, " "))
	}
	r := dsgen(c, nil, args...)
	if r.code != 0 {
		c.Fatalf("dsgen %q: exit %d: %s%s", args, r.code, vt.Trunc(string(r.out), 300), vt.Trunc(string(r.diag), 300))
	}
	recs, err := csv.NewReader(bytes.NewReader(r.out)).ReadAll()
	if err != nil {
		c.Fatalf("dsgen %q printed something other than CSV: %v", args, err)
	}
	if len(recs) != n+1 {
		c.Fatalf("dsgen %q printed %d rows, want %d", args, len(recs)-1, n)
	}
	seen := map[string]bool{}
	size := 0
	for i, rec := range recs {
		if len(rec) != 4 {
			c.Fatalf("dsgen %q: record %d has %d columns, want 4", args, i, len(rec))
		}
		if i == 0 {
			if strings.Join(rec, ",") != "uuid,ingest,occurred,raw_data" {
				c.Fatalf("dsgen %q: header %q", args, rec)
			}
			continue
		}
		if seen[rec[0]] {
			c.Fatalf("dsgen %q: row %d repeats the uuid %q", args, i-1, rec[0])
		}
		seen[rec[0]] = true
		size = len(strings.Join(rec, ",")) + 1
		if size < 950 || size > 1050 {
			c.Fatalf("dsgen %q: row %d is %d bytes long, want about 1000", args, i-1, size)
		}
	}
}

// fails: what cannot be done ends with a message and a failing exit status.
func fails(c *vt.C) {
	st, _ := structure(c)
	path := filepath.Join(scratch, "missing.json")
	n := vt.N(c.T, 1, 30, "rows")
	var stdout *os.File
	kind := vt.N(c.T, 0, 5, "kind")
	content := ""
	what := path
	switch kind {
	case 0: // nothing asked for
		what = ""
	case 1: // no such file
	case 2: // not a structure
		data, _ := json.Marshal(st)
		content = []string{"", "[]", "3", `"csv"`, `{"format":3}`, string(data[:len(data)-1]), string(data) + "x"}[vt.N(c.T, 0, 6, "content")]
	case 3: // not tabular
		st.Schema = []dx.Obj{nil, {"type": "object"}, {"type": "array"}, {"type": "array", "items": dx.Obj{"type": "object"}}, {"type": "string"}}[vt.N(c.T, 0, 4, "schema")]
		data, _ := json.Marshal(st)
		content = string(data)
	case 4, 5: // nowhere to write
		f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
		if err != nil {
			c.Fatalf("opening /dev/full: %v", err)
		}
		defer f.Close()
		stdout = f
		what = "fixed"
		if kind == 5 {
			st.FormatConfig = dx.Obj{"headerRow": true} // so that there is something to write
			data, _ := json.Marshal(st)
			content = string(data)
		} else if vt.Bool(c.T, "large") {
			n += 100 // more than is buffered
		}
	}
	if kind == 2 || kind == 3 || kind == 5 {
		what = save(c, []byte(content))
		defer os.Remove(what)
	}
	args := command(c, what, n)
	if what == "" {
		args = args[:0]
		if vt.Bool(c.T, "onlyFlag") {
			args = []string{"--rows", strconv.Itoa(n)}
		}
	}
	c.NonTrivial(kind, content, n, len(args), strings.HasPrefix(strings.Join(args, " "), "-"))
	c.Labelf("kind %d", kind)
	r := dsgen(c, stdout, args...)
	if r.code == 0 {
		c.Fatalf("dsgen %q (kind %d, structure %q) ended with success\n%s", args, kind, content, vt.Trunc(string(r.out), 300))
	}
	if r.code == 2 && bytes.Contains(r.diag, []byte("goroutine ")) {
		c.Fatalf("dsgen %q (kind %d, structure %q) crashed: %s", args, kind, content, vt.Trunc(string(r.diag), 600))
	}
	if stdout == nil && len(bytes.TrimSpace(r.out))+len(bytes.TrimSpace(r.diag)) == 0 {
		c.Fatalf("dsgen %q (kind %d, structure %q) failed without a message", args, kind, content)
	}
}

// many: the number of rows asked for is the number printed, however large.
func many(c *vt.C) {
	n := vt.N(c.T, 4000, 12000, "fixedRows")
	if vt.Bool(c.T, "fixed") {
		c.NonTrivial("fixed", n)
		c.Label("many fixed")
		r := dsgen(c, nil, command(c, "fixed", n)...)
		if got := bytes.Count(r.out, []byte("\n")); r.code != 0 || got != n+1 {
			c.Fatalf("dsgen printed %d lines for %d rows of the fixed table (exit %d)", got, n, r.code)
		}
		return
	}
	n = []int{65530, 100000, 131072, 99990, 250000}[vt.N(c.T, 0, 4, "rowsBase")] + vt.N(c.T, 0, 20, "more")
	st := &dataset.Structure{Format: "csv", Schema: dx.Obj{"type": "array", "items": dx.Obj{"type": "array", "items": []interface{}{dx.Obj{"title": "a", "type": "boolean"}}}}}
	data, _ := json.Marshal(st)
	path := save(c, data)
	defer os.Remove(path)
	c.NonTrivial("table", n)
	c.Label("many rows")
	r := dsgen(c, nil, command(c, path, n)...)
	if got := bytes.Count(r.out, []byte("\n")); r.code != 0 || got != n {
		c.Fatalf("dsgen printed %d lines for %d rows of a one-column table (exit %d)", got, n, r.code)
	}
}
