// Package jx reads JSON documents independently of the repository, keeping member order.
package jx

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"strconv"
	"strings"

	"github.com/qri-io/dataset/dsio"
)

// Top is a parsed top-level container.
type Top struct {
	Object  bool
	Entries []dsio.Entry
}

// Num interprets a JSON number: int64 if written as an integer that fits, else float64.
func Num(s string) (interface{}, error) {
	if !strings.ContainsAny(s, ".eE") {
		if i, err := strconv.ParseInt(s, 10, 64); err == nil {
			return i, nil
		}
	}
	f, err := strconv.ParseFloat(s, 64)
	return f, err
}

func conv(v interface{}) (interface{}, error) {
	switch x := v.(type) {
	case json.Number:
		return Num(string(x))
	case []interface{}:
		for i := range x {
			var err error
			if x[i], err = conv(x[i]); err != nil {
				return nil, err
			}
		}
	case map[string]interface{}:
		for k := range x {
			n, err := conv(x[k])
			if err != nil {
				return nil, err
			}
			x[k] = n
		}
	}
	return v, nil
}

// Value decodes one JSON text.
func Value(data []byte) (interface{}, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	var v interface{}
	if err := d.Decode(&v); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return conv(v)
}

// Parse decodes a top-level array or object into entries in document order.
func Parse(data []byte) (*Top, error) {
	d := json.NewDecoder(bytes.NewReader(data))
	d.UseNumber()
	tok, err := d.Token()
	if err != nil {
		return nil, err
	}
	top := &Top{}
	switch tok {
	case json.Delim('['):
	case json.Delim('{'):
		top.Object = true
	default:
		return nil, fmt.Errorf("top level is %v", tok)
	}
	for d.More() {
		e := dsio.Entry{}
		if top.Object {
			k, err := d.Token()
			if err != nil {
				return nil, err
			}
			e.Key = k.(string)
		} else {
			e.Index = len(top.Entries)
		}
		var v interface{}
		if err := d.Decode(&v); err != nil {
			return nil, err
		}
		if e.Value, err = conv(v); err != nil {
			return nil, err
		}
		top.Entries = append(top.Entries, e)
	}
	if _, err := d.Token(); err != nil {
		return nil, err
	}
	if _, err := d.Token(); err != io.EOF {
		return nil, fmt.Errorf("trailing data")
	}
	return top, nil
}
