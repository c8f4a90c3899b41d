package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Result of a satisfiability query.
type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

var solverGen uint32

// Solver is one incremental SMT process.
type Solver struct {
	ctx      *Ctx
	bin      []string
	cmd      *exec.Cmd
	in       io.WriteCloser
	out      *bufio.Reader
	gen      uint32
	stack    []*Term
	timeout  int // ms
	curTO    int
	left     func() time.Duration
	logic    string
	queries  int64
	nsat     int64
	nunsat   int64
	nunk     int64
	dur      time.Duration
	maxDur   time.Duration
	log      *os.File
	errs     []string
	usesFP   bool
}

func newSolver(ctx *Ctx, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, timeout: timeoutMs, bin: []string{solverBin(), "-in"}}
	s.start()
	return s
}

func solverBin() string {
	if b := os.Getenv("GOSYM_SOLVER"); b != "" {
		return b
	}
	for _, p := range []string{"/usr/local/bin/z3-new", "/usr/bin/z3"} {
		if _, err := os.Stat(p); err == nil {
			return p
		}
	}
	return "z3"
}

func (s *Solver) start() {
	s.gen = atomic.AddUint32(&solverGen, 1)
	s.stack = nil
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = in
	s.out = bufio.NewReaderSize(out, 1<<16)
	if p := os.Getenv("GOSYM_SMTLOG"); p != "" && s.log == nil {
		s.log, _ = os.Create(fmt.Sprintf("%s.%d.smt2", p, s.gen))
	}
	pre := "(set-option :global-declarations true)\n(set-option :produce-models true)\n"
	s.curTO = 0
	if l := os.Getenv("GOSYM_LOGIC"); l != "" {
		pre += "(set-logic " + l + ")\n"
	}
	s.write(pre)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

func (s *Solver) write(t string) {
	if s.log != nil {
		s.log.WriteString(t)
	}
	io.WriteString(s.in, t)
}

// line reads one answer with a watchdog.
func (s *Solver) line() (string, error) {
	timer := time.AfterFunc(time.Duration(2*s.timeout+10000)*time.Millisecond, func() {
		s.cmd.Process.Kill()
	})
	l, err := s.out.ReadString('\n')
	timer.Stop()
	return strings.TrimSpace(l), err
}

// Check decides whether pc ∧ extra is satisfiable; on Sat the model is returned.
func (s *Solver) Check(pc []*Term, extra *Term, wantModel bool) (Result, []uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxDur {
			s.maxDur = d
		}
	}()
	s.queries++
	var sb strings.Builder
	// common prefix
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if d := len(s.stack) - n; d > 0 {
		fmt.Fprintf(&sb, "(pop %d)\n", d)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.ctx.emitDefs(pc[n], s.gen, &sb)
		sb.WriteString("(push 1)\n(assert ")
		sb.WriteString(pc[n].ref())
		sb.WriteString(")\n")
		s.stack = append(s.stack, pc[n])
	}
	if extra != nil {
		s.ctx.emitDefs(extra, s.gen, &sb)
		sb.WriteString("(push 1)\n(assert ")
		sb.WriteString(extra.ref())
		sb.WriteString(")\n")
	}
	sb.WriteString("(check-sat)\n")
	limit := s.timeout
	if s.left != nil {
		if left := int(s.left().Milliseconds()); left < limit {
			limit = max(left, 50)
		}
	}
	first := min(limit, incTimeout)
	if first != s.curTO {
		s.write(fmt.Sprintf("(set-option :timeout %d)\n", first))
		s.curTO = first
	}
	s.write(sb.String())
	ans, err := s.line()
	if err != nil || strings.HasPrefix(ans, "(error") {
		if len(s.errs) < 20 {
			s.errs = append(s.errs, ans+" "+fmt.Sprint(err))
		}
		s.nunk++
		s.restart()
		return Unknown, nil
	}
	var res Result
	var model []uint64
	switch ans {
	case "sat":
		res = Sat
		s.nsat++
	case "unsat":
		res = Unsat
		s.nunsat++
	default:
		if limit > first {
			if extra != nil {
				s.write("(pop 1)\n")
			}
			return s.oneShot(pc, extra, limit-first, wantModel)
		}
		res = Unknown
		s.nunk++
	}
	if res == Sat && wantModel {
		var err error
		model, err = s.getModel()
		if err != nil {
			s.errs = append(s.errs, err.Error())
			s.nunk++
			s.restart()
			return Unknown, nil
		}
	}
	if extra != nil {
		s.write("(pop 1)\n")
	}
	return res, model
}

func (s *Solver) getModel() ([]uint64, error) {
	var sb strings.Builder
	var idx []int
	sb.WriteString("(get-value (")
	for i, v := range s.ctx.vars {
		if v != nil && v.defined == s.gen {
			sb.WriteString(v.ref())
			sb.WriteByte(' ')
			idx = append(idx, i)
		}
	}
	model := make([]uint64, len(s.ctx.vars))
	if len(idx) == 0 {
		return model, nil
	}
	sb.WriteString("))\n")
	s.write(sb.String())
	depth := 0
	var text strings.Builder
	for {
		l, err := s.line()
		if err != nil {
			return nil, err
		}
		text.WriteString(l)
		text.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth == 0 && strings.Contains(text.String(), "(") {
			break
		}
	}
	str := text.String()
	if strings.Contains(str, "error") {
		return nil, fmt.Errorf("get-value: %s", str)
	}
	return model, parseModel(str, model)
}

func parseModel(str string, model []uint64) error {
	toks := strings.FieldsFunc(str, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	// tokens: name value ...
	for i := 0; i+1 < len(toks); {
		name := toks[i]
		if name == "" || name[0] != 'v' {
			return fmt.Errorf("get-value parse: %q in %s", name, str)
		}
		us := strings.IndexByte(name, '_')
		vi, err := strconv.Atoi(name[1:us])
		if err != nil {
			return err
		}
		val := toks[i+1]
		i += 2
		var x uint64
		switch {
		case val == "true":
			x = 1
		case val == "false":
			x = 0
		case strings.HasPrefix(val, "#x"):
			x, err = strconv.ParseUint(val[2:], 16, 64)
		case strings.HasPrefix(val, "#b"):
			x, err = strconv.ParseUint(val[2:], 2, 64)
		case val == "_":
			x, err = strconv.ParseUint(strings.TrimPrefix(toks[i], "bv"), 10, 64)
			i += 2
		default:
			return fmt.Errorf("get-value value %q", val)
		}
		if err != nil {
			return err
		}
		model[vi] = x
	}
	return nil
}

// incTimeout is how long the incremental solver may take before a fresh solver with the
// full preprocessing takes over.
const incTimeout = 2500

// oneShot decides pc ∧ extra in a fresh solver process.
func (s *Solver) oneShot(pc []*Term, extra *Term, limit int, wantModel bool) (Result, []uint64) {
	var sb strings.Builder
	seen := map[*Term]bool{}
	var vars []*Term
	all := append([]*Term{}, pc...)
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		s.ctx.collectDefs(t, seen, &sb, &vars)
	}
	for _, t := range all {
		sb.WriteString("(assert ")
		sb.WriteString(t.ref())
		sb.WriteString(")\n")
	}
	body := sb.String()
	tail := ""
	if wantModel && len(vars) > 0 {
		var tb strings.Builder
		tb.WriteString("(get-value (")
		for _, v := range vars {
			tb.WriteString(v.ref())
			tb.WriteByte(' ')
		}
		tb.WriteString("))\n")
		tail = tb.String()
	}
	head := "(set-option :produce-models true)\n"
	scripts := []string{head + body + "(check-sat-using smt)\n" + tail + "(exit)\n"}
	if strings.Contains(body, "FloatingPoint") || strings.Contains(body, "fp.") || strings.Contains(body, "to_fp") {
		scripts = append(scripts, head+body+"(check-sat)\n"+tail+"(exit)\n")
	} else {
		scripts = append(scripts, head+"(set-logic QF_BV)\n"+body+"(check-sat)\n"+tail+"(exit)\n")
	}
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(limit)*time.Millisecond)
	defer cancel()
	outs := make(chan string, len(scripts))
	for _, sc := range scripts {
		go func() {
			cmd := exec.CommandContext(ctx, s.bin[0], "-in")
			cmd.Stdin = strings.NewReader(sc)
			out, _ := cmd.Output()
			outs <- strings.TrimSpace(string(out))
		}()
	}
	text := ""
	for range scripts {
		text = <-outs
		if strings.HasPrefix(text, "sat") || strings.HasPrefix(text, "unsat") {
			cancel()
			break
		}
	}
	ans, rest, _ := strings.Cut(text, "\n")
	switch strings.TrimSpace(ans) {
	case "unsat":
		s.nunsat++
		return Unsat, nil
	case "sat":
		model := make([]uint64, len(s.ctx.vars))
		if wantModel && len(vars) > 0 {
			if err := parseModel(strings.ReplaceAll(rest, "\n", " "), model); err != nil {
				s.errs = append(s.errs, err.Error())
				s.nunk++
				return Unknown, nil
			}
		}
		s.nsat++
		return Sat, model
	}
	if strings.HasPrefix(ans, "(error") && len(s.errs) < 20 {
		s.errs = append(s.errs, ans)
	}
	s.nunk++
	return Unknown, nil
}

func solverName() string {
	b := solverBin()
	out, _ := exec.Command(b, "--version").Output()
	return b + " (" + strings.TrimSpace(string(out)) + ")"
}
