package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The command line: main is analysed with the file system, the parser and
// cobra replaced by their contracts; what happens is recorded in order.

const cobraPkg = "github.com/spf13/cobra"
const pflagPkg = "github.com/spf13/pflag"

type cliWorld struct {
	p     *Program
	name  string
	nargs int
	given map[string]bool // flags on the command line
	exec  string          // "help", "badflags", "run"
	nth   int             // calls before this one
}

// steps of a run and the status each failure is documented to give
var stepCode = map[string]int{"mkdir": 3, "read": 4, "parse": 5, "serialise": 6, "write": 7}

func cliArg(i int) *Term { return rawTerm("arg", strType, intV(i)) }

func strip(v Val) Val {
	for {
		switch x := v.(type) {
		case *Term:
			if (x.Op == "bytes" || x.Op == "str") && len(x.A) == 1 {
				v = x.A[0]
				continue
			}
		case *Iface:
			v = x.V
			continue
		}
		return v
	}
}

func sameVal(a, b Val) bool { return key(strip(a)) == key(strip(b)) }

// pathTerm applies a path function; the same name has one form.
func pathTerm(op string, x Val) Val {
	if t, ok := x.(*Term); ok {
		switch {
		case op == "ext" && t.Op == "base":
		case op == "ext":
			x = rawTerm("base", strType, x)
		case op == "base" && t.Op == "base":
			return x
		}
	}
	return rawTerm(op, strType, x)
}

// ask decides whether something fails; nothing may have been recorded for
// the call before, as the call starts again after a case split.
func (w *cliWorld) ask(in *Interp, st *State, what string) bool {
	return in.decide(st, rawTerm("fails", types.Typ[types.Bool], strV(what), intV(len(st.events)), intV(w.nth)))
}

func (w *cliWorld) fails(st *State, step, what string) {
	st.event(rawTerm("failed", nil, strV(step), strV(what)))
}

func (w *cliWorld) failed(in *Interp, st *State, step, what string) bool {
	if !w.ask(in, st, what) {
		return false
	}
	w.fails(st, step, what)
	return true
}

// schema is what the parser returns in this call.
func (w *cliWorld) schema(t types.Type) *Term {
	if w.nth == 0 {
		return rawTerm("schema", t)
	}
	return rawTerm("schema", t, intV(w.nth))
}

func (w *cliWorld) call1(step string) string {
	if w.nth == 0 {
		return step
	}
	return fmt.Sprintf("%s in call %d", step, w.nth+1)
}

func stepErr(what string) Val { return rawTerm("errnew", errType, strV("error of "+what)) }

func errOr(in *Interp, st *State, bad bool, what string) []Outcome {
	if bad {
		return retv(st, stepErr(what))
	}
	return retv(st, nilV(errType))
}

// stepOf tells which step an access to a file belongs to.
func stepOf(path Val) string {
	if key(path) == cliArg(0).key {
		return "read"
	}
	return "write"
}

func handleOf(v Val) *Term {
	v = strip(v)
	t, _ := v.(*Term)
	for t != nil && t.Op == "bufw" {
		t, _ = strip(t.A[0]).(*Term)
	}
	if t != nil && t.Op == "file" {
		return t
	}
	return nil
}

func closed(st *State, h *Term) bool {
	for _, e := range st.events {
		if t := e.(*Term); t.Op == "close" && key(t.A[0]) == h.key {
			return true
		}
	}
	return false
}

func (w *cliWorld) write(in *Interp, st *State, wr, data Val, sig *types.Signature) []Outcome {
	h := handleOf(wr)
	if h == nil {
		in.fail("write to %s", key(wr))
	}
	n := in.strLenOf(st, data)
	b, _ := strip(wr).(*Term)
	if b != nil && b.Op == "bufw" {
		st.event(rawTerm("bufwrite", nil, b, data))
		return retv(st, &Tuple{[]Val{n, nilV(errType)}})
	}
	if closed(st, h) {
		w.fails(st, "write", "writing a closed file")
		return retv(st, &Tuple{[]Val{intV(0), stepErr("Write")}})
	}
	if w.failed(in, st, "write", "writing the file") {
		return retv(st, &Tuple{[]Val{&Top{types.Typ[types.Int]}, stepErr("Write")}})
	}
	st.event(rawTerm("write", nil, h, data))
	return retv(st, &Tuple{[]Val{n, nilV(errType)}})
}

// strLenOf is the length of a text or of its bytes.
func (in *Interp) strLenOf(st *State, v Val) Val {
	if isStr(strip(v)) {
		return in.strLen(st, strip(v))
	}
	if t, ok := v.(*Term); ok {
		if _, ok := under(t.T).(*types.Slice); ok {
			return in.lenOf(st, v)
		}
	}
	return &Top{types.Typ[types.Int]}
}

func (w *cliWorld) open(in *Interp, st *State, path Val, flags int, known bool, ft types.Type) []Outcome {
	if !known {
		in.fail("file opened with unknown flags")
	}
	step := stepOf(path)
	if flags&3 == 0 && step == "write" && flags == 0 {
		step = "probe"
	}
	if w.failed(in, st, step, "opening the file") {
		return retv(st, &Tuple{[]Val{nilV(ft), stepErr("OpenFile")}})
	}
	h := rawTerm("file", ft, path, intV(len(st.events)))
	st.event(rawTerm("open", nil, h, path, intV(flags)))
	return retv(st, &Tuple{[]Val{h, nilV(errType)}})
}

// flags of os.OpenFile on linux
const (
	oWRONLY = 1
	oRDWR   = 2
	oCREATE = 0x40
	oEXCL   = 0x80
	oTRUNC  = 0x200
	oAPPEND = 0x400
)

func (w *cliWorld) call(in *Interp, st *State, f *ssa.Function, n string, args []Val) ([]Outcome, bool) {
	if o, ok := jsonCalls(in, st, f, n, args); ok {
		for _, x := range o {
			if e := x.St.events[len(x.St.events)-1].(*Term); e.Op == "json-failed" {
				x.St.event(rawTerm("failed", nil, strV("serialise"), strV("serialising")))
			}
		}
		return o, true
	}
	res := func(i int) types.Type { return f.Signature.Results().At(i).Type() }
	if strings.HasPrefix(n, "io/ioutil.") {
		n = strings.Replace(n, "io/ioutil.", "os.", 1)
		n = strings.Replace(n, "os.ReadAll", "io.ReadAll", 1)
		n = strings.Replace(n, "os.TempFile", "os.CreateTemp", 1)
	}
	switch n {
	case modPath + "/kfparser.ParseKF":
		bad := w.ask(in, st, "parsing")
		st.event(rawTerm("parse", nil, args[0], args[2]))
		if bad {
			w.fails(st, "parse", "parsing")
			return retv(st, &Tuple{[]Val{nilV(res(0)), stepErr(w.call1("parse"))}}), true
		}
		t := types.NewPointer(w.p.typ("schema", "Schema"))
		return retv(st, &Tuple{[]Val{&Iface{t, w.schema(t)}, nilV(errType)}}), true
	case "os.MkdirAll", "os.Mkdir":
		if w.failed(in, st, "mkdir", "making the directory") {
			return retv(st, stepErr("MkdirAll")), true
		}
		st.event(rawTerm("mkdir", nil, args[0], strV(n)))
		return retv(st, nilV(errType)), true
	case "os.ReadFile":
		if w.failed(in, st, stepOf(args[0]), "reading") {
			return retv(st, &Tuple{[]Val{nilV(res(0)), stepErr("ReadFile")}}), true
		}
		st.event(rawTerm("read", nil, args[0]))
		return retv(st, &Tuple{[]Val{rawTerm("bytes", res(0), rawTerm("filedata", strType, args[0])), nilV(errType)}}), true
	case "io.ReadAll":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		if w.failed(in, st, stepOf(h.A[0]), "reading") {
			return retv(st, &Tuple{[]Val{&Top{res(0)}, stepErr("ReadAll")}}), true
		}
		st.event(rawTerm("read", nil, h.A[0]))
		return retv(st, &Tuple{[]Val{rawTerm("bytes", res(0), rawTerm("filedata", strType, h.A[0])), nilV(errType)}}), true
	case "os.Stat", "os.Lstat":
		step := "probe"
		if w.failed(in, st, step, "looking at a file") {
			return retv(st, &Tuple{[]Val{nilV(res(0)), stepErr("Stat")}}), true
		}
		return retv(st, &Tuple{[]Val{rawTerm("info", res(0), args[0]), nilV(errType)}}), true
	case "os.Open":
		return w.open(in, st, args[0], 0, true, res(0)), true
	case "os.Create":
		return w.open(in, st, args[0], oRDWR|oCREATE|oTRUNC, true, res(0)), true
	case "os.OpenFile":
		k, ok := constInt(args[1])
		return w.open(in, st, args[0], k, ok, res(0)), true
	case "os.CreateTemp":
		return w.open(in, st, rawTerm("temp", strType, args[0], intV(len(st.events))), oRDWR|oCREATE|oEXCL, true, res(0)), true
	case "os.WriteFile":
		bad := w.ask(in, st, "writing the file")
		outs := w.open(in, st, args[0], oWRONLY|oCREATE|oTRUNC, true, types.NewPointer(types.Typ[types.Int]))
		if h := handleOf(outs[0].V.(*Tuple).V[0]); h != nil {
			if bad {
				w.fails(st, "write", "writing the file")
				return retv(st, stepErr("WriteFile")), true
			}
			st.event(rawTerm("write", nil, h, args[1]))
			st.event(rawTerm("close", nil, h))
		}
		return retv(st, outs[0].V.(*Tuple).V[1]), true
	case "os.Rename":
		if w.failed(in, st, "write", "renaming") {
			return retv(st, stepErr("Rename")), true
		}
		st.event(rawTerm("rename", nil, args[0], args[1]))
		return retv(st, nilV(errType)), true
	case "os.Truncate":
		if w.failed(in, st, "write", "truncating") {
			return retv(st, stepErr("Truncate")), true
		}
		st.event(rawTerm("truncpath", nil, args[0], args[1]))
		return retv(st, nilV(errType)), true
	case "os.Chmod", "os.Chown", "os.Lchown", "os.Chtimes":
		if w.failed(in, st, "probe", "changing the mode of a file") {
			return retv(st, stepErr("Chmod")), true
		}
		return retv(st, nilV(errType)), true
	case "os.Link", "os.Symlink":
		if w.failed(in, st, "write", "linking") {
			return retv(st, stepErr("Link")), true
		}
		st.event(rawTerm("link", nil, args[0], args[1]))
		return retv(st, nilV(errType)), true
	case "os.Remove", "os.RemoveAll":
		if w.failed(in, st, "probe", "removing") {
			return retv(st, stepErr("Remove")), true
		}
		st.event(rawTerm("remove", nil, args[0]))
		return retv(st, nilV(errType)), true
	case "(*os.File).Write", "(*os.File).WriteString", "io.WriteString", "(*bufio.Writer).Write", "(*bufio.Writer).WriteString":
		return w.write(in, st, args[0], args[1], f.Signature), true
	case "bufio.NewWriter", "bufio.NewWriterSize":
		return retv(st, rawTerm("bufw", res(0), args[0], intV(len(st.events)))), true
	case "(*bufio.Writer).Flush":
		b := strip(args[0]).(*Term)
		h := handleOf(b)
		if h == nil {
			return nil, false
		}
		if w.failed(in, st, "write", "flushing") {
			return retv(st, stepErr("Flush")), true
		}
		for _, e := range append([]Val(nil), st.events...) {
			if t := e.(*Term); t.Op == "bufwrite" && key(t.A[0]) == b.key {
				st.event(rawTerm("write", nil, h, t.A[1]))
			}
		}
		return retv(st, nilV(errType)), true
	case "(*os.File).Close":
		h := handleOf(args[0])
		if h == nil {
			in.fail("close of %s", key(args[0]))
		}
		if closed(st, h) {
			return retv(st, stepErr("Close of a closed file")), true
		}
		bad := false
		if k, ok := constInt(eventOpen(st, h)); !ok || k != 0 {
			bad = w.ask(in, st, "closing the file")
		}
		st.event(rawTerm("close", nil, h))
		if bad {
			w.fails(st, "write", "closing the file")
			return retv(st, stepErr("Close")), true
		}
		return retv(st, nilV(errType)), true
	case "(*os.File).Sync", "(*os.File).Chmod", "(*os.File).Truncate":
		h := handleOf(args[0])
		if h == nil {
			return nil, false
		}
		if w.failed(in, st, "write", strings.TrimPrefix(n, "(*os.File).")) {
			return retv(st, stepErr(n)), true
		}
		if strings.HasSuffix(n, "Truncate") {
			st.event(rawTerm("truncate", nil, h, args[1]))
		}
		return retv(st, nilV(errType)), true
	case "(*os.File).Name":
		if h := handleOf(args[0]); h != nil {
			return retv(st, h.A[0]), true
		}
	case "path/filepath.Base", "path.Base":
		return retv(st, pathTerm("base", args[0])), true
	case "path/filepath.Ext", "path.Ext":
		return retv(st, pathTerm("ext", args[0])), true
	case "path/filepath.Dir", "path.Dir":
		if t, ok := args[0].(*Term); ok && t.Op == "join" {
			return retv(st, t.A[0]), true
		}
	case "path/filepath.Abs":
		if w.failed(in, st, "probe", "finding the working directory") {
			return retv(st, &Tuple{[]Val{strV(""), stepErr("Abs")}}), true
		}
		return retv(st, &Tuple{[]Val{args[0], nilV(errType)}}), true
	case "path/filepath.Clean", "path.Clean":
		return retv(st, args[0]), true
	case "path/filepath.Join", "path.Join":
		vs, ok := in.listVals(st, args[0])
		if ok {
			return retv(st, rawTerm("join", strType, vs...)), true
		}
	case "strings.TrimSuffix":
		if e, ok := args[1].(*Term); ok && e.Op == "ext" && key(e.A[0]) == key(args[0]) {
			return retv(st, rawTerm("stem", strType, args[0])), true
		}
		if k, ok := args[0].(*Term); ok && k.Op == "base" {
			return retv(st, rawTerm("trimmed", strType, args...)), true
		}
	}
	if strings.HasPrefix(n, "(*"+cobraPkg+".Command).") {
		return w.command(in, st, f, strings.TrimPrefix(n, "(*"+cobraPkg+".Command)."), args)
	}
	if strings.HasPrefix(n, cobraPkg+".") {
		switch f.Name() {
		case "ExactArgs":
			return retv(st, rawTerm("nargs", res(0), args[0], args[0])), true
		case "MinimumNArgs":
			return retv(st, rawTerm("nargs", res(0), args[0], intV(1<<30))), true
		case "MaximumNArgs":
			return retv(st, rawTerm("nargs", res(0), intV(0), args[0])), true
		case "RangeNArgs", "RangeArgs":
			return retv(st, rawTerm("nargs", res(0), args[0], args[1])), true
		}
	}
	if strings.HasPrefix(n, "(*"+pflagPkg+".FlagSet).") {
		return w.flagCall(in, st, f, args)
	}
	if f.Pkg != nil && f.Blocks == nil || f.Pkg != nil && !strings.HasPrefix(fnPkgPath(f), modPath) {
		switch p := fnPkgPath(f); p {
		case "os", "os/exec", "syscall", "io/ioutil", "golang.org/x/sys/unix":
			if f.Signature.Recv() == nil && !noFileEffect[f.Name()] || p == "os/exec" {
				in.fail("the effect of %s on files is not modelled", n)
			}
		}
	}
	return nil, false
}

// noFileEffect lists functions of package os that change no file.
var noFileEffect = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Getwd Getenv LookupEnv Environ IsNotExist IsExist IsPermission IsPathSeparator IsTimeout ReadDir Readlink Hostname UserHomeDir UserCacheDir UserConfigDir TempDir Getpid Getppid Getuid Geteuid Getgid Getegid Getpagesize SameFile Expand ExpandEnv DirFS Executable Exit NewSyscallError init Setenv Unsetenv") {
		noFileEffect[n] = true
	}
}

func eventOpen(st *State, h *Term) Val {
	for _, e := range st.events {
		if t := e.(*Term); t.Op == "open" && key(t.A[0]) == h.key {
			return t.A[2]
		}
	}
	return nil
}

// flagCall models the definition and reading of flags.
func (w *cliWorld) flagCall(in *Interp, st *State, f *ssa.Function, args []Val) ([]Outcome, bool) {
	n := f.Name()
	sig := f.Signature
	nm := func(i int) string { return sig.Params().At(i).Name() }
	np := sig.Params().Len()
	if np >= 2 && nm(np-1) == "usage" && nm(np-2) == "value" {
		// Kind[Var][P]
		i := 0
		var ptr, name, short Val
		short = strV("")
		if nm(0) == "p" {
			ptr = args[1]
			i = 1
		}
		name = args[i+1]
		if np-i == 4 {
			short = args[i+2]
		}
		def := args[np-1]
		if ptr == nil {
			t := sig.Params().At(np - 2).Type()
			ptr = &Ptr{O: in.alloc(st, &Cell{def, t})}
		} else {
			in.store(st, ptr, def)
		}
		st.event(rawTerm("flag", nil, name, short, def, ptr))
		if sig.Results().Len() == 0 {
			return retv(st, &Tuple{}), true
		}
		return retv(st, ptr), true
	}
	switch {
	case strings.HasPrefix(n, "Get") && np == 1:
		for _, e := range st.events {
			if t := e.(*Term); t.Op == "flag" && key(t.A[0]) == key(args[1]) {
				return retv(st, &Tuple{[]Val{in.load(st, t.A[3], sig.Results().At(0).Type()), nilV(errType)}}), true
			}
		}
		return retv(st, &Tuple{[]Val{zero(sig.Results().At(0).Type()), stepErr("unknown flag")}}), true
	case n == "Changed" && np == 1:
		if s, ok := constStr(args[1]); ok {
			return retv(st, boolV(w.given[s])), true
		}
	case n == "SortFlags" || n == "SetInterspersed":
		return retv(st, &Tuple{}), true
	}
	in.fail("flag operation %s", n)
	return nil, false
}

func (w *cliWorld) out(in *Interp, st *State, args []Val) {
	var vs []Val
	for _, a := range args {
		if l, ok := in.listVals(st, a); ok {
			vs = append(vs, l...)
			continue
		}
		vs = append(vs, a)
	}
	for i := range vs {
		vs[i] = strip(vs[i])
		if hasObj(vs[i]) {
			vs[i] = rawTerm("any", strType)
		}
	}
	st.event(rawTerm("out", nil, vs...))
}

func (w *cliWorld) command(in *Interp, st *State, f *ssa.Function, n string, args []Val) ([]Outcome, bool) {
	switch n {
	case "Flags", "PersistentFlags", "LocalFlags", "LocalNonPersistentFlags", "InheritedFlags":
		return retv(st, rawTerm("flagset", f.Signature.Results().At(0).Type())), true
	case "Println", "Print", "Printf", "PrintErrln", "PrintErr", "PrintErrf":
		w.out(in, st, args[1:])
		return retv(st, &Tuple{}), true
	case "Help", "Usage":
		w.out(in, st, []Val{rawTerm("help", strType)})
		return retv(st, nilV(errType)), true
	case "OutOrStdout", "OutOrStderr", "ErrOrStderr":
		return retv(st, rawTerm("stdout", f.Signature.Results().At(0).Type())), true
	case "SetOut", "SetErr", "SetOutput", "SetHelpTemplate", "SetUsageTemplate":
		return retv(st, &Tuple{}), true
	case "Execute", "ExecuteContext":
		return w.execute(in, st, args[0]), true
	}
	in.fail("command operation %s", n)
	return nil, false
}

// execute is cobra's run of a command without subcommands.
func (w *cliWorld) execute(in *Interp, st *State, cmd Val) []Outcome {
	ct := w.p.extTyp(cobraPkg, "Command")
	field := func(s *State, name string) Val {
		v := in.load(s, cmd, ct)
		t := under(ct).(*types.Struct)
		for i := 0; i < t.NumFields(); i++ {
			if t.Field(i).Name() == name {
				return in.field(s, v, i, t.Field(i).Type())
			}
		}
		in.fail("no field %s in cobra.Command", name)
		return nil
	}
	if b, ok := constBool(field(st, "DisableFlagParsing")); !ok || b {
		in.fail("flags are not parsed")
	}
	switch w.exec {
	case "badflags":
		st.event(rawTerm("badflags", nil))
		w.out(in, st, []Val{rawTerm("help", strType)})
		return retv(st, stepErr("flags"))
	case "help":
		w.out(in, st, []Val{rawTerm("help", strType)})
		return retv(st, nilV(errType))
	}
	known := map[string]bool{}
	for _, e := range append([]Val(nil), st.events...) {
		t := e.(*Term)
		if t.Op != "flag" {
			continue
		}
		name, _ := constStr(t.A[0])
		known[name] = true
		if !w.given[name] {
			continue
		}
		var v Val = rawTerm("flag:"+name, typeOf(t.A[2]))
		if _, ok := constBool(t.A[2]); ok {
			v = boolV(true)
		}
		in.store(st, t.A[3], v)
	}
	if v := field(st, "Version"); !isEmptyStr(v) && w.given["version"] {
		w.out(in, st, []Val{v})
		return retv(st, nilV(errType))
	}
	for g := range w.given {
		if !known[g] {
			return retv(st, stepErr("unknown flag"))
		}
	}
	var as []Val
	for i := 0; i < w.nargs; i++ {
		as = append(as, cliArg(i))
	}
	list := in.newList(st, strType, as...)
	st.pins = append(st.pins[:len(st.pins):len(st.pins)], list)
	outs := retv(st, nilV(errType))
	step := func(f func(s *State) []Outcome) {
		var next []Outcome
		for _, o := range outs {
			if o.Kind != oRet || !isNil(o.V) {
				next = append(next, o)
				continue
			}
			next = append(next, in.tryCall(o.St, f)...)
		}
		outs = next
	}
	step(func(s *State) []Outcome {
		a := field(s, "Args")
		switch a := a.(type) {
		case *Const:
			return retv(s, nilV(errType))
		case *Term:
			if a.Op == "nargs" {
				lo, ok1 := constInt(a.A[0])
				hi, ok2 := constInt(a.A[1])
				if ok1 && ok2 {
					return errOr(in, s, w.nargs < lo || w.nargs > hi, "wrong number of arguments")
				}
			}
		case *Func:
			switch fnName(a.F) {
			case cobraPkg + ".ArbitraryArgs":
				return retv(s, nilV(errType))
			case cobraPkg + ".NoArgs":
				return errOr(in, s, w.nargs > 0, "wrong number of arguments")
			}
			return in.invokeVal(s, a, nil, []Val{cmd, list}, 0, token.NoPos)
		}
		in.fail("argument rule %s", key(a))
		return nil
	})
	for _, h := range []string{"PersistentPreRun", "PreRun", "Run", "PostRun", "PersistentPostRun"} {
		h := h
		step(func(s *State) []Outcome {
			if fe := field(s, h+"E"); !isNil(fe) {
				return in.invokeVal(s, fe, nil, []Val{cmd, list}, 0, token.NoPos)
			}
			fv := field(s, h)
			if isNil(fv) {
				if h == "Run" {
					w.out(in, s, []Val{rawTerm("help", strType)})
				}
				return retv(s, nilV(errType))
			}
			os := in.invokeVal(s, fv, nil, []Val{cmd, list}, 0, token.NoPos)
			for i := range os {
				if os[i].Kind == oRet {
					os[i].V = nilV(errType)
				}
			}
			return os
		})
	}
	return outs
}

func isEmptyStr(v Val) bool { s, ok := constStr(v); return ok && s == "" }

func (w *cliWorld) scenario() *Scenario {
	sc := &Scenario{name: w.name}
	sc.fn = w.call
	sc.onPrint = func(in *Interp, st *State, fn *ssa.Function, a []Val) { w.out(in, st, a) }
	sc.decideF = func(in *Interp, st *State, t *Term) Tri {
		if t.Op == "isnil" {
			if x, ok := t.A[0].(*Term); ok {
				switch x.Op {
				case "schema", "file", "bufw", "info", "flagset", "stdout", "bytes", "json", "errnew":
					return No
				}
			}
		}
		if t.Op == "eq" && len(t.A) == 2 {
			for i := 0; i < 2; i++ {
				if s, ok := constStr(t.A[i]); ok && s == "" {
					if x, ok := t.A[1-i].(*Term); ok && (x.Op == "base" || x.Op == "join") {
						return No
					}
				}
			}
		}
		return Maybe
	}
	sc.resolveF = func(in *Interp, st *State, t *Term) Val {
		// base with its extension cut off
		if t.Op == "substr" && len(t.A) == 3 {
			if lo, ok := constInt(t.A[1]); ok && lo == 0 {
				if hi, ok := t.A[2].(*Int); ok && hi.Off == 0 && hi.B != nil && hi.B.Op == "sub" && isExtCut(t.A[0], hi.B) {
					return rawTerm("stem", strType, t.A[0])
				}
			}
		}
		return nil
	}
	sc.sliceBounds = func(in *Interp, st *State, x, lo, hi Val) bool {
		h, ok := hi.(*Int)
		l, ok2 := constInt(lo)
		return ok && ok2 && l == 0 && h.Off == 0 && h.B != nil && h.B.Op == "sub" && isExtCut(x, h.B)
	}
	return sc
}

// isExtCut: sub is len(x) - len(ext(x)).
func isExtCut(x Val, sub *Term) bool {
	lenOf := func(v Val) Val {
		if i, ok := v.(*Int); ok && i.Off == 0 && i.B != nil && i.B.Op == "strlen" {
			return i.B.A[0]
		}
		return nil
	}
	a, b := lenOf(sub.A[0]), lenOf(sub.A[1])
	if a == nil || b == nil || key(a) != key(x) {
		return false
	}
	e, ok := b.(*Term)
	return ok && e.Op == "ext" && (key(e.A[0]) == key(x))
}

// run analyses main.
func (c *vctx) cli(w *cliWorld) ([]Outcome, *Interp) {
	if f := os.Getenv("KF_WORLD"); f != "" && !strings.Contains(w.name, f) {
		return nil, nil
	}
	sc := w.scenario()
	b := newInterp(c.p, sc)
	b.initPackages()
	for u := range b.undecided {
		c.rep.undecided("package initialisation: %s", u)
	}
	in := b.fresh(sc)
	m := c.p.fn("", "main")
	if m == nil {
		c.rep.undecided("no function main")
		return nil, nil
	}
	st := in.start()
	st.events = b.initEvents
	if g, ok := c.p.pkg("version").Members["Version"].(*ssa.Global); ok {
		st.heap[st.glob[g]] = &Cell{rawTerm("version", strType), strType}
	}
	outs := in.run(st, m, nil, nil)
	c.rep.absorb(w.name, in, outs)
	c.rep.add("command_lines", 1)
	if len(outs) == 0 {
		c.rep.undecided("%s: no outcome", w.name)
	}
	return outs, in
}

// fs is what the file system looks like after a run.
type fsys struct {
	content map[string][]Val // by path
	paths   map[string]Val
	stale   map[string]bool // may hold something else too
	touched bool
}

func filesAfter(st *State) *fsys {
	f := &fsys{content: map[string][]Val{}, paths: map[string]Val{}, stale: map[string]bool{}}
	at := map[string]string{} // handle -> path
	for _, e := range st.events {
		t := e.(*Term)
		switch t.Op {
		case "open":
			fl, _ := constInt(t.A[2])
			p := key(t.A[1])
			at[key(t.A[0])] = p
			if fl&3 == 0 {
				continue
			}
			f.touched = true
			f.paths[p] = t.A[1]
			if fl&oTRUNC != 0 || fl&oEXCL != 0 {
				f.content[p], f.stale[p] = nil, false
			} else {
				f.stale[p] = true
			}
			if fl&oAPPEND != 0 && fl&oTRUNC == 0 {
				f.stale[p] = true
			}
		case "truncate":
			if k, ok := constInt(t.A[1]); ok && k == 0 {
				p := at[key(t.A[0])]
				if len(f.content[p]) == 0 {
					f.stale[p] = false
				}
			} else {
				f.stale[at[key(t.A[0])]] = true
			}
		case "truncpath":
			p := key(t.A[0])
			f.touched = true
			f.paths[p] = t.A[0]
			if k, ok := constInt(t.A[1]); ok && k == 0 {
				f.content[p], f.stale[p] = nil, false
			} else {
				f.stale[p] = true
			}
		case "link":
			p := key(t.A[1])
			f.touched = true
			f.paths[p], f.stale[p] = t.A[1], true
		case "write":
			p := at[key(t.A[0])]
			f.content[p] = append(f.content[p], t.A[1])
		case "rename":
			a, b := key(t.A[0]), key(t.A[1])
			f.touched = true
			f.content[b], f.stale[b], f.paths[b] = f.content[a], f.stale[a] || f.paths[a] == nil, t.A[1]
			delete(f.content, a)
			delete(f.paths, a)
			for h, p := range at {
				if p == a {
					at[h] = b
				}
			}
		case "remove":
			f.touched = true
			delete(f.content, key(t.A[0]))
			delete(f.paths, key(t.A[0]))
		}
	}
	return f
}

func (w *cliWorld) outDir() Val {
	if w.given["output"] {
		return rawTerm("flag:output", strType)
	}
	return strV("./build")
}

// outPath is where the result has to be.
func (w *cliWorld) outPath() Val {
	return rawTerm("join", strType, w.outDir(), catOf([]Val{rawTerm("stem", strType, rawTerm("base", strType, cliArg(0))), strV(".json")}))
}

func exitCode(o Outcome) (int, bool) {
	switch o.Kind {
	case oRet:
		return 0, true
	case oExit:
		return constInt(o.V)
	}
	return 0, false
}

func (c *vctx) cliAnchor(in *Interp) string {
	m := map[string]bool{}
	for f := range in.fnsSeen {
		p := fnPkgPath(f)
		if (p == modPath+"/cmd" || p == modPath) && f.Synthetic == "" && f.Name() != "init" {
			m[f.String()] = true
		}
	}
	return shortFn(strings.Join(sortedKeys(m), ","))
}

func (c *vctx) cliWorlds(f func(w *cliWorld)) {
	for _, ex := range []string{"run", "help", "badflags"} {
		for _, n := range []int{0, 1, 2, 3, 7} {
			for m := 0; m < 8; m++ {
				w := &cliWorld{p: c.p, nargs: n, exec: ex, given: map[string]bool{}}
				if ex != "run" && (n > 1 || m > 0) {
					continue
				}
				for i, g := range []string{"trace", "output", "version"} {
					if m&(1<<i) != 0 {
						w.given[g] = true
					}
				}
				w.name = fmt.Sprintf("%s with %d arguments, options %s", ex, n, strings.Join(sortedKeys(w.given), " "))
				f(w)
			}
		}
	}
}

func has(st *State, ops ...string) string {
	for _, e := range st.events {
		for _, op := range ops {
			if e.(*Term).Op == op {
				return op
			}
		}
	}
	return ""
}

func failures(st *State) (steps map[string]bool, probes bool) {
	steps = map[string]bool{}
	for _, e := range st.events {
		if t := e.(*Term); t.Op == "failed" {
			s, _ := constStr(t.A[0])
			if s == "probe" {
				probes = true
				continue
			}
			steps[s] = true
		}
	}
	return
}

// ---- C20 ----

func checkC20(c *vctx) {
	const rule = "exit-status"
	c.rep.rule("for every command line (options given or not, no, one or several arguments, help, malformed options) and every combination of failing steps, the process ends with the status documented for what happened: 0 exactly after the file was read, parsed, serialised and written (or only version or help were shown), else the status of a step that failed; after a failed parse no file was opened for writing, renamed or removed")
	c.cliWorlds(func(w *cliWorld) {
		c.job(func() {
			outs, in := c.cli(w)
			for _, o := range outs {
				c.rep.add("endings_checked", 1)
				con := c.cliAnchor(in)
				bad := func(f string, a ...interface{}) {
					c.rep.viol(rule, con, w.name+": "+fmt.Sprintf(f, a...), o.St.trail.list(60))
				}
				code, ok := exitCode(o)
				if o.Kind == oPanic {
					bad("the command panics: %s", short(o.V))
					continue
				}
				if !ok {
					bad("the exit status is %s", short(o.V))
					continue
				}
				st := o.St
				fail, probes := failures(st)
				touched := has(st, "open", "rename", "remove", "parse", "read")
				switch {
				case w.exec == "help":
					if code != 0 || touched != "" {
						bad("showing the help ends with status %d", code)
					}
				case w.exec == "badflags":
					if code != 1 || touched != "" {
						bad("malformed options end with status %d, not 1", code)
					}
				case w.given["version"]:
					if code != 0 || touched != "" {
						bad("showing the version ends with status %d", code)
					}
				case w.nargs != 1:
					if len(fail) == 0 && code != 2 {
						bad("%d files end with status %d, not 2", w.nargs, code)
					}
				default:
					allowed := map[int]bool{}
					for s := range fail {
						allowed[stepCode[s]] = true
					}
					if len(fail) == 0 {
						allowed[0] = true
						if probes {
							allowed[3], allowed[4], allowed[7] = true, true, true
						}
					}
					if !allowed[code] {
						if len(fail) == 0 {
							bad("the run ends with status %d although no step failed", code)
						} else {
							bad("the run ends with status %d although %s failed", code, strings.Join(sortedKeys(fail), " and "))
						}
						continue
					}
					if code == 0 {
						for _, need := range []string{"read", "parse", "json", "open"} {
							if has(st, need) == "" {
								bad("status 0 without step %s", need)
							}
						}
						for _, e := range st.events {
							if t := e.(*Term); t.Op == "mkdir" {
								if s, _ := constStr(t.A[1]); s == "os.Mkdir" {
									bad("the directory step fails when the directory exists or its parent does not")
								}
							}
						}
					}
					if fail["parse"] && filesAfter(st).touched {
						bad("files are changed although the source fails to parse")
					}
				}
			}
		})
	})
	c.flush()
	c.rep.minimum("command_lines", 40)
	c.rep.minimum("endings_checked", 60)
}

// ---- C21 ----

func checkC21(c *vctx) {
	const rule = "output-holds-the-json"
	c.rep.rule("whenever the command ends with status 0 for a file, the file named after it in the chosen directory, and no other, was truncated or created new, holds exactly the bytes serialisation returned for the schema of that file's text, and was closed with the result of closing looked at; no failing open, write or close ends with status 0")
	c.cliWorlds(func(w *cliWorld) {
		if w.exec != "run" || w.nargs != 1 || w.given["version"] {
			return
		}
		c.job(func() {
			outs, in := c.cli(w)
			n := 0
			for _, o := range outs {
				code, ok := exitCode(o)
				if !ok || o.Kind == oPanic {
					continue // C20's concern
				}
				con := c.cliAnchor(in)
				bad := func(f string, a ...interface{}) {
					c.rep.viol(rule, con, w.name+": "+fmt.Sprintf(f, a...), o.St.trail.list(60))
				}
				st := o.St
				fail, _ := failures(st)
				if fail["write"] && len(fail) == 1 && code != stepCode["write"] {
					bad("a failure to open, write or close the output ends with status %d", code)
					continue
				}
				if code != 0 {
					continue
				}
				n++
				c.rep.add("successes_checked", 1)
				fs := filesAfter(st)
				want := w.outPath()
				k := key(want)
				for _, p := range sortedKeys(fs.paths) {
					if p != k {
						bad("another file is written: %s", short(fs.paths[p]))
					}
				}
				if fs.paths[k] == nil {
					bad("no file %s is written", short(want))
					continue
				}
				if fs.stale[k] {
					bad("the file may hold something left over from before")
				}
				sch := rawTerm("schema", types.NewPointer(w.p.typ("schema", "Schema")))
				switch d := fs.content[k]; {
				case len(d) != 1:
					bad("the file is written in %d pieces", len(d))
				default:
					if m := isIndented(st, strip(d[0]), sch); m != "" {
						bad("the content of the file: %s", m)
					}
				}
				for _, e := range st.events {
					t := e.(*Term)
					switch t.Op {
					case "open":
						if fl, _ := constInt(t.A[2]); fl&3 != 0 && !closed(st, t.A[0].(*Term)) {
							bad("the file is not closed")
						}
					case "parse":
						if !sameVal(t.A[0], rawTerm("filedata", strType, cliArg(0))) {
							bad("what is parsed is %s", short(t.A[0]))
						}
					}
				}
			}
			if n == 0 {
				c.rep.viol(rule, c.cliAnchor(in), w.name+": the command never succeeds", nil)
			}
		})
	})
	c.flush()
	c.rep.minimum("successes_checked", 4)
}

// ---- C22 ----

func checkC22(c *vctx) {
	const rule = "options-take-effect"
	c.rep.rule("the options trace/t, version/v and output/o are defined with their documented defaults; the mode handed to the parser is the trace mode exactly when trace is given, and the parser prints in that mode on every path and never otherwise; every file is written in, and the directory made is, the one chosen by output or ./build; with version given the version is printed and nothing else happens")
	var traceMode Val
	if k, ok := c.p.pkg("kfparser").Members["Trace"].(*ssa.NamedConst); ok {
		traceMode = &Const{k.Value.Value, k.Type()}
	} else {
		c.rep.undecided("no constant kfparser.Trace")
		return
	}
	c.cliWorlds(func(w *cliWorld) {
		if w.exec != "run" || w.nargs != 1 && !w.given["version"] {
			return
		}
		c.job(func() {
			outs, in := c.cli(w)
			parses := 0
			for _, o := range outs {
				c.rep.add("endings_checked", 1)
				con := c.cliAnchor(in)
				st := o.St
				bad := func(f string, a ...interface{}) {
					c.rep.viol(rule, con, w.name+": "+fmt.Sprintf(f, a...), st.trail.list(60))
				}
				if w.given["version"] {
					printed := 0
					for _, e := range st.events {
						t := e.(*Term)
						switch t.Op {
						case "flag":
						case "out":
							if len(t.A) == 1 && key(t.A[0]) == rawTerm("version", strType).key {
								printed++
							} else if !versionOnly(t.A) {
								bad("%s is printed instead of the version", short(t))
							} else {
								printed++
							}
						default:
							bad("more happens than showing the version: %s", t.Op)
						}
					}
					if printed != 1 {
						bad("the version is printed %d times", printed)
					}
					continue
				}
				for _, e := range st.events {
					t := e.(*Term)
					switch t.Op {
					case "parse":
						parses++
						isTrace := false
						if m, ok := t.A[1].(*Const); ok && m.V != nil {
							isTrace = hasBits(m, traceMode.(*Const))
						} else {
							bad("the mode of the parser is %s", short(t.A[1]))
							continue
						}
						if isTrace != w.given["trace"] {
							bad("the parser is called with mode %s", short(t.A[1]))
						}
					case "mkdir":
						if key(t.A[0]) != key(w.outDir()) {
							bad("the directory made is %s", short(t.A[0]))
						}
					case "open":
						if fl, _ := constInt(t.A[2]); fl&3 != 0 && !under0(t.A[1], w.outDir()) {
							bad("the output goes to %s", short(t.A[1]))
						}
					}
				}
			}
			if parses == 0 && !w.given["version"] {
				c.rep.viol(rule, c.cliAnchor(in), w.name+": nothing is parsed", nil)
			}
		})
	})
	// definitions
	c.job(func() {
		w := &cliWorld{p: c.p, name: "definition of the options", exec: "run", nargs: 1, given: map[string]bool{}}
		outs, in := c.cli(w)
		for _, o := range outs {
			con := c.cliAnchor(in)
			got := map[string]*Term{}
			for _, e := range o.St.events {
				if t := e.(*Term); t.Op == "flag" {
					if s, ok := constStr(t.A[0]); ok {
						got[s] = t
					}
				}
			}
			for _, d := range []struct {
				name, short string
				def         Val
			}{{"trace", "t", boolV(false)}, {"version", "v", boolV(false)}, {"output", "o", strV("./build")}} {
				c.rep.add("options", 1)
				t := got[d.name]
				if t == nil {
					c.rep.viol(rule, con, "the option "+d.name+" is not defined", nil)
					continue
				}
				if s, _ := constStr(t.A[1]); s != d.short {
					c.rep.viol(rule, con, fmt.Sprintf("the short form of option %s is %q, not %q", d.name, s, d.short), nil)
				}
				if dc, ok := t.A[2].(*Const); !ok || dc.V == nil || dc.V.ExactString() != d.def.(*Const).V.ExactString() {
					c.rep.viol(rule, con, fmt.Sprintf("the default of option %s is %s", d.name, short(t.A[2])), nil)
				}
			}
			break
		}
	})
	c.traceOutput(rule)
	c.flush()
	c.rep.minimum("command_lines", 8)
	c.rep.minimum("options", 3)
	c.rep.minimum("trace_worlds", 2)
}

func versionOnly(vs []Val) bool {
	n := 0
	for _, v := range vs {
		switch x := v.(type) {
		case *Const:
		case *Term:
			for _, p := range parts(x) {
				if key(p) == rawTerm("version", strType).key {
					n++
				} else if _, ok := p.(*Const); !ok {
					return false
				}
			}
		}
	}
	return n == 1
}

func hasBits(m, want *Const) bool {
	a, ok1 := constant.Uint64Val(constant.ToInt(m.V))
	b, ok2 := constant.Uint64Val(constant.ToInt(want.V))
	return ok1 && ok2 && b != 0 && a&b == b
}

// under0: the path is one inside the directory.
func under0(path, dir Val) bool {
	j, ok := path.(*Term)
	if ok && j.Op == "cat" && len(j.A) > 0 {
		j, ok = j.A[0].(*Term)
	}
	if ok && j.Op == "temp" {
		return key(j.A[0]) == key(dir)
	}
	return ok && j.Op == "join" && len(j.A) > 1 && key(j.A[0]) == key(dir)
}

// traceOutput: the parser prints something in trace mode and nothing else
// without it.
func (c *vctx) traceOutput(rule string) {
	c.each(func(pw parseWay, mk func(string) *pworld) {
		for _, k := range []string{"accepted", "refused", "malformed"} {
			k := k
			c.job(func() {
				w := mk("a source that is " + k)
				w.prints = true
				switch k {
				case "refused":
					w.valid = retError
				case "malformed":
					w.parErr = 1
				}
				vs, in := c.parseRun(w)
				c.rep.add("trace_worlds", 1)
				for _, v := range vs {
					printed := v.o.St.happened("printed") != nil
					if printed != pw.trace {
						what := "nothing is printed although tracing is on"
						if printed {
							what = "something is printed although tracing is off"
						}
						c.rep.viol(rule, w.name+": "+c.parseAnchor(in), what, trailOf(v))
					}
					c.rep.add("endings_checked", 1)
				}
			})
		}
	})
}
