package main

import (
	"encoding/json"
	"fmt"
	"strconv"
)

func itoa(n int) string { return strconv.Itoa(n) }

func quote(s string) string { return strconv.QuoteToASCII(s) }

// toJSON turns any value into a generic tree.
func toTree(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint("unmarshalable: ", err)
	}
	var out interface{}
	json.Unmarshal(b, &out)
	return out
}

func unmarshal(b []byte, v interface{}) {
	if err := json.Unmarshal(b, v); err != nil {
		fatalf("unreadable file: %v", err)
	}
}

// contains reports whether everything in a is in b as well.
func contains(b, a interface{}) bool {
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range x {
			if !contains(y[k], v) {
				return false
			}
		}
		return true
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !contains(y[i], x[i]) {
				return false
			}
		}
		return true
	}
	return fmt.Sprint(a) == fmt.Sprint(b)
}
