package main

import (
	"bufio"
	"bytes"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
)

// An independent RESP2 encoder and parser (the one side of every wire oracle).

// Val is one RESP value. Kind is one of + - : $ * and _ for the nil bulk, ~ for the nil array.
type Val struct {
	Kind byte
	Str  string
	Int  int64
	Arr  []Val
}

func (v Val) String() string {
	switch v.Kind {
	case '+', '-':
		return string(v.Kind) + show(v.Str)
	case '$':
		return show(v.Str)
	case ':':
		return fmt.Sprintf("(integer) %d", v.Int)
	case '_':
		return "(nil)"
	case '~':
		return "(nil array)"
	case '*':
		var sb strings.Builder
		sb.WriteByte('[')
		for i, e := range v.Arr {
			if i > 0 {
				sb.WriteByte(' ')
			}
			if i == 20 && len(v.Arr) > 24 {
				fmt.Fprintf(&sb, "...(%d elements)", len(v.Arr))
				break
			}
			sb.WriteString(e.String())
		}
		sb.WriteByte(']')
		return sb.String()
	}
	return "(no value)"
}

// ErrMalformed marks bytes that are not RESP.
var ErrMalformed = errors.New("malformed RESP")

func encodeReq(args []B) []byte {
	var b bytes.Buffer
	b.WriteByte('*')
	b.WriteString(strconv.Itoa(len(args)))
	b.WriteString("\r\n")
	for _, a := range args {
		b.WriteByte('$')
		b.WriteString(strconv.Itoa(len(a)))
		b.WriteString("\r\n")
		b.WriteString(string(a))
		b.WriteString("\r\n")
	}
	return b.Bytes()
}

func readLine(r *bufio.Reader) (string, error) {
	s, err := r.ReadString('\n')
	if err != nil {
		return "", err
	}
	if !strings.HasSuffix(s, "\r\n") {
		return "", fmt.Errorf("%w: line %s ends without CRLF", ErrMalformed, show(s))
	}
	s = s[:len(s)-2]
	if strings.ContainsAny(s, "\r\n") {
		return "", fmt.Errorf("%w: line %s contains CR or LF", ErrMalformed, show(s))
	}
	return s, nil
}

func parseNum(s string) (int64, error) {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil || strings.HasPrefix(s, "+") {
		return 0, fmt.Errorf("%w: bad number %s", ErrMalformed, show(s))
	}
	return n, nil
}

// readVal reads exactly one value.
func readVal(r *bufio.Reader) (Val, error) { return readValDepth(r, 0) }

func readValDepth(r *bufio.Reader, depth int) (Val, error) {
	line, err := readLine(r)
	if err != nil {
		return Val{}, err
	}
	if line == "" {
		return Val{}, fmt.Errorf("%w: empty line", ErrMalformed)
	}
	switch line[0] {
	case '+', '-':
		return Val{Kind: line[0], Str: line[1:]}, nil
	case ':':
		n, err := parseNum(line[1:])
		return Val{Kind: ':', Int: n}, err
	case '$':
		n, err := parseNum(line[1:])
		if err != nil {
			return Val{}, err
		}
		if n == -1 {
			return Val{Kind: '_'}, nil
		}
		if n < 0 || n > 1<<30 {
			return Val{}, fmt.Errorf("%w: bulk length %d", ErrMalformed, n)
		}
		buf := make([]byte, n+2)
		if _, err := io.ReadFull(r, buf); err != nil {
			return Val{}, err
		}
		if string(buf[n:]) != "\r\n" {
			return Val{}, fmt.Errorf("%w: bulk of %d bytes is followed by %s", ErrMalformed, n, show(string(buf[n:])))
		}
		return Val{Kind: '$', Str: string(buf[:n])}, nil
	case '*':
		n, err := parseNum(line[1:])
		if err != nil {
			return Val{}, err
		}
		if n == -1 {
			return Val{Kind: '~'}, nil
		}
		if n < 0 || n > 1<<26 || depth > 8 {
			return Val{}, fmt.Errorf("%w: array length %d at depth %d", ErrMalformed, n, depth)
		}
		v := Val{Kind: '*', Arr: make([]Val, 0, min(int(n), 4096))}
		for i := int64(0); i < n; i++ {
			e, err := readValDepth(r, depth+1)
			if err != nil {
				return Val{}, err
			}
			v.Arr = append(v.Arr, e)
		}
		return v, nil
	}
	return Val{}, fmt.Errorf("%w: line %s", ErrMalformed, show(line))
}

func isErr(v Val) bool { return v.Kind == '-' }
