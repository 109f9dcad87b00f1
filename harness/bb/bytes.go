package main

import (
	"encoding/json"
	"fmt"
	"strings"
)

// B is a byte string that survives JSON: each byte is written as the rune of the same number.
type B string

func (b B) MarshalJSON() ([]byte, error) {
	var sb strings.Builder
	for i := 0; i < len(b); i++ {
		sb.WriteRune(rune(b[i]))
	}
	return json.Marshal(sb.String())
}

func (b *B) UnmarshalJSON(p []byte) error {
	var s string
	if err := json.Unmarshal(p, &s); err != nil {
		return err
	}
	out := make([]byte, 0, len(s))
	for _, r := range s {
		if r > 255 {
			return fmt.Errorf("rune %q is not a byte", r)
		}
		out = append(out, byte(r))
	}
	*b = B(out)
	return nil
}

func show(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:100], len(s))
	}
	return fmt.Sprintf("%q", s)
}

func showArgs(args []B) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i == 20 && len(args) > 24 {
			fmt.Fprintf(&sb, "... (%d arguments)", len(args))
			break
		}
		if isPlain(string(a)) {
			sb.WriteString(string(a))
		} else {
			sb.WriteString(show(string(a)))
		}
	}
	return sb.String()
}

func isPlain(s string) bool {
	if s == "" || len(s) > 60 {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] <= ' ' || s[i] > '~' || s[i] == '"' || s[i] == '\\' {
			return false
		}
	}
	return true
}
