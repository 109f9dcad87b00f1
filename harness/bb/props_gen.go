package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

// ---- C21: the generator of the command tables

// GenItem is a declaration of a generated source file.
type GenItem struct {
	Kind    string   `json:"kind"`
	Name    string   `json:"name"`
	Comment []string `json:"comment,omitempty"` // lines directly above
	Apart   []string `json:"apart,omitempty"`   // a comment with an empty line below
	Tight   bool     `json:"tight,omitempty"`   // no empty line above
	Block   bool     `json:"block,omitempty"`   // a block comment above
	Body    int      `json:"body,omitempty"`
}

// GenFile is a case of C21.
type GenFile struct {
	Repo  bool      `json:"repo,omitempty"` // the handler files of the repository
	Items []GenItem `json:"items,omitempty"`
	File  string    `json:"file,omitempty"` // name of the file
	Dir   string    `json:"dir,omitempty"`  // below the scratch directory
	Style int       `json:"style,omitempty"`
	Old   bool      `json:"old,omitempty"` // there is an output already
}

var handlerNames = []string{"sAdd", "get", "GET", "lPush", "hash2", "a", "X", "_x", "x_", "zRangeByScore", "größe", "命令", "Ключ", "x1y2", "aB9_", "c", "init2", "command", "protocol2", "error2", "Response", "func1", "H٣", "veryLongHandlerNameWhichGoesOnAndOn", "ÀÉ", "ZADD"}

var docTexts = []string{"SADD", "sadd", "Set", "ZRANGEBYSCORE", "X", "GET", "get.", "LPUSH.", "HSET", "ping", "A.B", "COMMAND DOCS", "größe", "ÀÉ", "z-1", "x_y", "123", "SET key value", "quote \"x\"", "back\\slash", "percent %d", "{{ . }}", "tick `x`", "<html> & co", "it's", "tab\tinside"}

func (g *Gen) genItem(used map[string]bool) GenItem {
	it := GenItem{Kind: pick(g, []string{"handler", "handler", "handler", "handler", "handler", "short", "long", "method", "other", "literal", "commented", "commented", "type", "var", "call", "bodyComment"}), Body: g.Intn(6)}
	for {
		it.Name = pick(g, handlerNames)
		if g.chance(0.4) {
			it.Name = fmt.Sprintf("h%d", g.Intn(500))
		}
		if !used[it.Name] {
			break
		}
	}
	used[it.Name] = true
	switch g.Intn(6) {
	case 0, 1, 2:
		it.Comment = []string{pick(g, docTexts)}
		if g.chance(0.3) {
			it.Comment = []string{strings.ToUpper(it.Name)}
		}
	case 3:
		it.Comment = []string{pick(g, docTexts), "", pick(g, docTexts)}
		if g.chance(0.5) {
			it.Comment = []string{"func old(c *Command) (*protocol.Response, error) {", pick(g, docTexts)}
		}
	}
	it.Tight, it.Block = g.chance(0.25), g.chance(0.15)
	if g.chance(0.25) {
		it.Apart = []string{pick(g, docTexts)}
	}
	return it
}

func genFile(g *Gen, i int) any {
	if i%50 == 0 {
		return &GenFile{Repo: true, Style: i / 50 % 4}
	}
	c := &GenFile{File: pick(g, []string{"string.go", "a.go", "cmd.go", "x.cmd.go.go", "cmds.go", "hash_table.go", ".go", "go.go", "x y.go", "ключ.go", "a.b.go", "xcmd.go"}),
		Dir: pick(g, []string{"", "d", "d.go", "x.cmd.go", "with space", "a/b/c"}), Style: g.Intn(4), Old: g.chance(0.3)}
	switch g.Intn(12) {
	case 0:
		c.File = pick(g, []string{"table.cmd.go", "x.cmd.go", "a.b.cmd.go"})
	case 1:
		c.File = pick(g, []string{"readme.md", "x.go.txt", "x", "x.goo", "xgo", "x.go~"})
	}
	used := map[string]bool{}
	for k := pick(g, []int{0, 1, 3, 5, 8, 8, 15, 15, 40}); k > 0 && len(used) < 400; k-- {
		c.Items = append(c.Items, g.genItem(used))
		if len(used) >= len(handlerNames) {
			break
		}
	}
	return c
}

// source writes the file, and tells which registrations it asks for.
func (c *GenFile) source() (string, []string) {
	var (
		b    strings.Builder
		want []string
	)
	b.WriteString("package redis\n\nimport (\n\t\"errors\"\n\n\t\"github.com/yusank/godis/protocol\"\n)\n\nvar errX = errors.New(\"x\")\n")
	for i, it := range c.Items {
		if !it.Tight || i > 0 && c.Items[i-1].Kind == "commented" {
			b.WriteString("\n")
		}
		for _, l := range it.Apart {
			b.WriteString("// " + l + "\n\n")
		}
		if it.Block {
			b.WriteString([]string{"/* block */\n", "/*\nSADD\n*/\n", "/* // X */\n"}[it.Body%3])
		}
		for _, l := range it.Comment {
			b.WriteString(strings.TrimRight("// "+l, " ") + "\n")
		}
		sig := "func " + it.Name + "(c *Command) (*protocol.Response, error) {"
		name := strings.ToLower(it.Name)
		if n := len(it.Comment); n > 0 {
			name = strings.ToLower(strings.TrimSpace(strings.TrimSuffix(it.Comment[n-1], ".")))
		}
		switch it.Kind {
		case "handler", "bodyComment":
			want = append(want, name+" = "+it.Name)
			b.WriteString(sig + "\n")
			switch it.Body {
			case 0:
			case 1:
				b.WriteString("\t// func inner(c *Command) (*protocol.Response, error) {\n")
			case 2:
				b.WriteString("\tif len(c.Values) == 0 {\n\t\treturn nil, errX\n\t}\n\n")
			case 3:
				b.WriteString("\tf := func(c *Command) (*protocol.Response, error) {\n\t\treturn nil, nil\n\t}\n\n\t_ = f\n")
			case 4:
				b.WriteString("\ts := \"func fake(c *Command) (*protocol.Response, error) {\"\n\t_ = s\n")
			case 5:
				b.WriteString("\tdefer func() {}()\n")
			}
			b.WriteString("\treturn nil, nil\n")
			if it.Kind == "bodyComment" {
				b.WriteString("\t// the end\n")
			}
			b.WriteString("}\n")
		case "short":
			want = append(want, name+" = "+it.Name)
			b.WriteString(sig + " return nil, nil }\n")
		case "long":
			want = append(want, name+" = "+it.Name)
			b.WriteString(sig + "\n\ts := \"" + strings.Repeat("0123456789", []int{10, 6553, 6554, 7000, 20000, 100000}[it.Body]) + "\"\n\t_ = s\n\treturn nil, nil\n}\n")
		case "method":
			b.WriteString("func (c *Command) " + it.Name + "(d *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n")
		case "other":
			b.WriteString("func " + it.Name + []string{"(c *Command) error {\n\treturn nil\n}\n", "() (*protocol.Response, error) {\n\treturn nil, nil\n}\n", "(c *Command, n int) (*protocol.Response, error) {\n\treturn nil, nil\n}\n",
				"(c *Command) (*protocol.Receive, error) {\n\treturn nil, nil\n}\n", "(c *Command) (*protocol.Response, bool) {\n\treturn nil, false\n}\n", "(c *Commands) (*protocol.Response, error) {\n\treturn nil, nil\n}\n"}[it.Body])
		case "literal":
			b.WriteString("var " + it.Name + " = func(c *Command) (*protocol.Response, error) {\n\treturn nil, nil\n}\n")
		case "commented":
			b.WriteString([]string{"// ", "//", "// \t"}[it.Body%3] + sig + "\n// \treturn nil, nil\n// }\n")
		case "type":
			b.WriteString("type " + it.Name + " func(c *Command) (*protocol.Response, error)\n")
		case "var":
			b.WriteString("var " + it.Name + " = \"func x(c *Command) (*protocol.Response, error) {\"\n")
		case "call":
			b.WriteString("func " + it.Name + "(f func(c *Command) (*protocol.Response, error)) (*protocol.Response, error) {\n\treturn f(nil)\n}\n")
		}
	}
	return b.String(), want
}

// registrations reads a generated file.
func registrations(name string, src []byte) ([]string, error) {
	f, err := parser.ParseFile(token.NewFileSet(), name, src, parser.SkipObjectResolution)
	if err != nil {
		return nil, fmt.Errorf("the output is not Go: %v", err)
	}
	if f.Name.Name != "redis" {
		return nil, fmt.Errorf("the output is of package %s", f.Name.Name)
	}
	var out []string
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		if fn.Name.Name != "init" || fn.Recv != nil {
			return nil, fmt.Errorf("the output declares %s", fn.Name.Name)
		}
		for _, st := range fn.Body.List {
			as, ok := st.(*ast.AssignStmt)
			bad := fmt.Errorf("the output has a statement that is no registration")
			if !ok || len(as.Lhs) != 1 || len(as.Rhs) != 1 {
				return nil, bad
			}
			ix, ok := as.Lhs[0].(*ast.IndexExpr)
			if !ok {
				return nil, bad
			}
			lit, ok1 := ix.Index.(*ast.BasicLit)
			to, ok2 := as.Rhs[0].(*ast.Ident)
			if m, ok := ix.X.(*ast.Ident); !ok || m.Name != "implementedCommands" || !ok1 || !ok2 || lit.Kind != token.STRING {
				return nil, bad
			}
			key, err := strconv.Unquote(lit.Value)
			if err != nil {
				return nil, err
			}
			out = append(out, key+" = "+to.Name)
		}
	}
	return out, nil
}

// runGenerator runs it on dir/file, named in one of four styles.
func (e *Env) runGenerator(dir, file string, style int) *Failure {
	arg := filepath.Join(dir, file)
	cmd := exec.Command(e.serverBin("gen"))
	cmd.Dir = dir
	switch style {
	case 1:
		arg = file
	case 2:
		arg = "./" + file
	case 3:
		cmd.Dir = filepath.Dir(dir)
		arg = filepath.Base(dir) + "/" + file
	}
	cmd.Args = append(cmd.Args, arg)
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	if err := startCmd(cmd); err != nil {
		harness("%v", err)
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if err != nil {
			return mismatch("the generator fails on %s: %v: %.300s", arg, err, out.String())
		}
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		<-done
		return &Failure{Kind: "hang", Msg: "the generator did not end within 60 s"}
	}
	return nil
}

func diffLists(got, want []string) string {
	for i := range got {
		if i >= len(want) {
			return fmt.Sprintf("registration %d is %q, want %d registrations", i, got[i], len(want))
		}
		if got[i] != want[i] {
			return fmt.Sprintf("registration %d is %q, want %q", i, got[i], want[i])
		}
	}
	if len(got) < len(want) {
		return fmt.Sprintf("%d registrations, want another one: %q", len(got), want[len(got)])
	}
	return ""
}

func runGenFile(e *Env, v any, o *Obs) *Failure {
	c := v.(*GenFile)
	root, err := os.MkdirTemp(e.scratch, "gen")
	if err != nil {
		harness("%v", err)
	}
	defer os.RemoveAll(root)
	if c.Repo {
		return repoTables(e, c, root, o)
	}
	text, want := c.source()
	src, err := format.Source([]byte(text))
	if err != nil {
		harness("the generated source is not Go: %v\n%.2000s", err, text)
	}
	dir := filepath.Join(root, "w", c.Dir)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		harness("%v", err)
	}
	path := filepath.Join(dir, c.File)
	outPath := strings.TrimSuffix(path, ".go") + ".cmd.go"
	skipped := !strings.HasSuffix(c.File, ".go") || strings.HasSuffix(c.File, ".cmd.go")
	if err := os.WriteFile(path, src, 0o644); err != nil {
		harness("%v", err)
	}
	old := []byte("// old\npackage redis\n\nfunc init() {\n" + strings.Repeat("\timplementedCommands[\"old\"] = old\n", 300) + "}\n")
	if c.Old && !skipped {
		if err := os.WriteFile(outPath, old, 0o644); err != nil {
			harness("%v", err)
		}
	}
	trace := func(f *Failure) *Failure {
		f.Trace = strings.Split(string(src), "\n")
		for i, l := range f.Trace {
			if len(l) > 200 {
				f.Trace[i] = l[:200] + "..."
			}
		}
		return f
	}
	for run := 0; run < 2; run++ {
		o.actions++
		if f := e.runGenerator(dir, c.File, c.Style); f != nil {
			return trace(f)
		}
		now, err := os.ReadFile(path)
		if err != nil || !bytes.Equal(now, src) {
			return trace(mismatch("the source file %s was changed (%v)", c.File, err))
		}
		list, err := os.ReadDir(dir)
		if err != nil {
			harness("%v", err)
		}
		for _, f := range list {
			if p := filepath.Join(dir, f.Name()); p != path && (skipped || p != outPath) {
				return trace(mismatch("run on %s, the generator writes %s", c.File, f.Name()))
			}
		}
		if skipped {
			o.label("skipped")
			continue
		}
		out, err := os.ReadFile(outPath)
		if os.IsNotExist(err) && len(want) == 0 {
			continue
		}
		if err != nil {
			return trace(mismatch("no output: %v", err))
		}
		got, err := registrations(outPath, out)
		if err != nil {
			return trace(mismatch("%v", err))
		}
		if d := diffLists(got, want); d != "" {
			return trace(mismatch("%s", d))
		}
		o.actions += len(want)
	}
	others := 0
	for _, it := range c.Items {
		o.label("item:" + it.Kind)
		if it.Kind == "commented" || it.Kind == "method" || it.Kind == "literal" || it.Kind == "other" || len(it.Comment) > 0 {
			others++
		}
	}
	o.nontrivial = len(want) >= 2 && others >= 1 && !skipped
	return nil
}

// repoTables generates the tables of the repository anew.
func repoTables(e *Env, c *GenFile, root string, o *Obs) *Failure {
	tables, err := filepath.Glob(filepath.Join(e.repo, "redis", "*.cmd.go"))
	if err != nil || len(tables) == 0 {
		return mismatch("the repository has no command tables")
	}
	for _, t := range tables {
		committed, err := os.ReadFile(t)
		if err != nil {
			harness("%v", err)
		}
		want, err := registrations(t, committed)
		if err != nil {
			return mismatch("%s: %v", filepath.Base(t), err)
		}
		base := strings.TrimSuffix(filepath.Base(t), ".cmd.go") + ".go"
		src, err := os.ReadFile(filepath.Join(e.repo, "redis", base))
		if err != nil {
			return mismatch("%s has no source file", filepath.Base(t))
		}
		if err := os.WriteFile(filepath.Join(root, base), src, 0o644); err != nil {
			harness("%v", err)
		}
		if f := e.runGenerator(root, base, c.Style); f != nil {
			return f
		}
		out, err := os.ReadFile(filepath.Join(root, filepath.Base(t)))
		if err != nil {
			return mismatch("no output for %s: %v", base, err)
		}
		got, err := registrations(t, out)
		if err != nil {
			return mismatch("%s: %v", base, err)
		}
		if d := diffLists(got, want); d != "" {
			return mismatch("generated from redis/%s and compared to the committed table: %s", base, d)
		}
		o.actions += len(want)
	}
	o.label("repository")
	o.nontrivial = true
	return nil
}

func shrinkGenFile(v any) []any {
	c := v.(*GenFile)
	var out []any
	if c.Repo {
		return nil
	}
	out = append(out, dropChunks(len(c.Items), func(from, to int) any {
		d := *c
		d.Items = append(append([]GenItem(nil), c.Items[:from]...), c.Items[to:]...)
		return &d
	})...)
	for i, it := range c.Items {
		add := func(f func(it *GenItem)) {
			d := *c
			d.Items = append([]GenItem(nil), c.Items...)
			f(&d.Items[i])
			out = append(out, &d)
		}
		if len(it.Comment) > 0 {
			add(func(it *GenItem) { it.Comment = it.Comment[1:] })
		}
		if len(it.Apart) > 0 {
			add(func(it *GenItem) { it.Apart = nil })
		}
		if it.Tight {
			add(func(it *GenItem) { it.Tight = false })
		}
		if it.Block {
			add(func(it *GenItem) { it.Block = false })
		}
		if it.Body > 0 {
			add(func(it *GenItem) { it.Body = 0 })
		}
	}
	d := *c
	d.Dir, d.Style, d.Old, d.File = "", 0, false, "a.go"
	return append(out, &d)
}

func init() {
	register(&Prop{ID: "C21", Rule: "a case is a gofmt-formatted Go file of generated declarations (handlers with and without comments, one-line handlers, bodies with long lines, methods, other signatures, function literals, commented-out handlers, strings and types that look like handlers) under a generated path, on which the generator is run twice, or the handler files of the repository; the output is parsed as Go and its registrations compared with those of the declarations; it is non-trivial if there are at least 2 handlers and another declaration or a comment; distinct by the text of the case",
		Quick: 8000, Thorough: 200000, Gen: genFile, New: func() any { return &GenFile{} }, Run: runGenFile, Shrink: shrinkGenFile})
}
