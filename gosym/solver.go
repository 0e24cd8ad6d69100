package main

import (
	"bufio"
	"fmt"
	"io"
	"math"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type verdict int

const (
	vUnsat verdict = iota
	vSat
	vUnknown
)

func (v verdict) String() string { return [...]string{"unsat", "sat", "unknown"}[v] }

// Solver drives one persistent SMT-LIB process.
type Solver struct {
	cmdline   []string
	ctx       *Ctx
	cmd       *exec.Cmd
	in        *bufio.Writer
	inc       io.WriteCloser
	out       *bufio.Reader
	gen       uint32
	defs      int
	tblDef    map[uint64]bool
	varDef    map[int32]bool
	timeoutMs int
	dead      bool

	queries  int64
	nSat     int64
	nUnsat   int64
	nUnknown int64
	spent    time.Duration
	log      func(string)
}

func newSolver(ctx *Ctx, cmdline []string, timeoutMs int) *Solver {
	return &Solver{ctx: ctx, cmdline: cmdline, timeoutMs: timeoutMs}
}

func (s *Solver) start() error {
	s.stop()
	s.gen++
	s.defs = 0
	s.tblDef = map[uint64]bool{}
	s.varDef = map[int32]bool{}
	s.cmd = exec.Command(s.cmdline[0], s.cmdline[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if strings.Contains(s.cmdline[0], "z3") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMs)
	} else {
		fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-option :tlimit-per %d)\n(set-logic ALL)\n", s.timeoutMs)
	}
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortOf(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case wFP:
		return "(_ FloatingPoint 11 53)"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func bvLit(v uint64, w uint8) string {
	if w == 0 {
		if v != 0 {
			return "true"
		}
		return "false"
	}
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w)/4, v&mask(w))
	}
	return fmt.Sprintf("(_ bv%d %d)", v&mask(w), w)
}

func fpLit(bits uint64) string {
	f := math.Float64frombits(bits)
	if math.IsNaN(f) {
		return "(_ NaN 11 53)"
	}
	return fmt.Sprintf("(fp #b%d #b%011b #b%052b)", bits>>63, bits>>52&0x7ff, bits&(1<<52-1))
}

func varName(id int32) string { return "b" + strconv.Itoa(int(id)) }

// ref returns the SMT text naming e, emitting definitions as needed.
func (s *Solver) ref(e *Expr) string {
	switch e.op {
	case oConst:
		return bvLit(e.k, e.w)
	case oFConst:
		return fpLit(e.k)
	case oVar:
		id := int32(e.k)
		if !s.varDef[id] {
			s.varDef[id] = true
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", varName(id), sortOf(e.w))
		}
		return varName(id)
	}
	name := "e" + strconv.Itoa(int(e.id))
	if e.defined == s.gen {
		return name
	}
	var body string
	switch e.op {
	case oNot:
		body = "(not " + s.ref(e.a) + ")"
	case oAnd:
		body = "(and " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oOr:
		body = "(or " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oIte:
		body = "(ite " + s.ref(e.a) + " " + s.ref(e.b) + " " + s.ref(e.c) + ")"
	case oZExt:
		body = fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case oSExt:
		body = fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, s.ref(e.a))
	case oTrunc:
		body = fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, s.ref(e.a))
	case oTbl:
		s.defTable(e.k)
		body = fmt.Sprintf("(tbl%d %s)", e.k, s.ref(e.a))
	case oFFromS:
		body = "((_ to_fp 11 53) RNE " + s.ref(e.a) + ")"
	case oFFromU:
		body = "((_ to_fp_unsigned 11 53) RNE " + s.ref(e.a) + ")"
	case oFAdd:
		body = "(fp.add RNE " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFSub:
		body = "(fp.sub RNE " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFMul:
		body = "(fp.mul RNE " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFDiv:
		body = "(fp.div RNE " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFNeg:
		body = "(fp.neg " + s.ref(e.a) + ")"
	case oFLt:
		body = "(fp.lt " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFLe:
		body = "(fp.leq " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFEq:
		body = "(fp.eq " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	case oFToS:
		body = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", e.w, s.ref(e.a))
	default:
		body = "(" + opNames[e.op] + " " + s.ref(e.a) + " " + s.ref(e.b) + ")"
	}
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", name, sortOf(e.w), body)
	e.defined = s.gen
	s.defs++
	return name
}

func (s *Solver) defTable(id uint64) {
	if s.tblDef[id] {
		return
	}
	s.tblDef[id] = true
	t := s.ctx.tables[id]
	w := s.ctx.tabW[id]
	lit := func(v uint64) string {
		if w == wFP {
			return fpLit(v)
		}
		return bvLit(v, w)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(define-fun tbl%d ((i (_ BitVec 8))) %s ", id, sortOf(w))
	n := 0
	i := 0
	for i < len(t) {
		j := i
		for j+1 < len(t) && t[j+1] == t[i] {
			j++
		}
		if j == len(t)-1 {
			sb.WriteString(lit(t[i]))
		} else {
			fmt.Fprintf(&sb, "(ite (bvule i %s) %s ", bvLit(uint64(j), 8), lit(t[i]))
			n++
		}
		i = j + 1
	}
	sb.WriteString(strings.Repeat(")", n))
	sb.WriteString(")\n")
	s.in.WriteString(sb.String())
}

func setSMT(v string, d bset) string {
	var parts []string
	for i := 0; i < 256; {
		if !d.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && d.has(byte(j+1)) {
			j++
		}
		if i == j {
			parts = append(parts, fmt.Sprintf("(= %s #x%02x)", v, i))
		} else {
			parts = append(parts, fmt.Sprintf("(and (bvule #x%02x %s) (bvule %s #x%02x))", i, v, v, j))
		}
		i = j + 1
	}
	if len(parts) == 0 {
		return "false"
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return "(or " + strings.Join(parts, " ") + ")"
}

type domC struct {
	v int32
	d bset
}

// check decides the conjunction of doms and cs; on sat it returns values for vars.
func (s *Solver) check(doms []domC, cs []*Expr, vars []int32) (verdict, map[int32]uint64) {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	if s.dead {
		return vUnknown, nil
	}
	if s.cmd == nil || s.defs > 150000 {
		if err := s.start(); err != nil {
			s.dead = true
			return vUnknown, nil
		}
	}
	s.queries++
	var sb strings.Builder
	sb.WriteString("(push 1)\n")
	for _, d := range doms {
		e := s.ctx.varE[d.v]
		n := s.ref(e)
		if d.d != fullSet {
			sb.WriteString("(assert " + setSMT(n, d.d) + ")\n")
		}
	}
	for _, c := range cs {
		sb.WriteString("(assert " + s.ref(c) + ")\n")
	}
	for _, v := range vars {
		s.ref(s.ctx.varE[v])
	}
	sb.WriteString("(check-sat)\n")
	if s.log != nil {
		s.log(sb.String())
	}
	s.in.WriteString(sb.String())
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.stop()
		s.nUnknown++
		return vUnknown, nil
	}
	res := vUnknown
	switch line {
	case "sat":
		res = vSat
		s.nSat++
	case "unsat":
		res = vUnsat
		s.nUnsat++
	default:
		s.nUnknown++
		if strings.HasPrefix(line, "(error") || line != "unknown" {
			if s.log != nil {
				s.log("solver said: " + line)
			}
			if debugSolver {
				fmt.Println("SOLVER:", line)
				fmt.Println(sb.String())
			}
			s.stop()
			return vUnknown, nil
		}
	}
	var model map[int32]uint64
	if res == vSat && len(vars) > 0 {
		names := make([]string, len(vars))
		for i, v := range vars {
			names[i] = varName(v)
		}
		s.in.WriteString("(get-value (" + strings.Join(names, " ") + "))\n")
		s.in.Flush()
		txt, err := s.readSexp()
		if err != nil {
			s.stop()
			return vUnknown, nil
		}
		model = parseModel(txt)
	}
	s.in.WriteString("(pop 1)\n")
	return res, model
}

// checkText decides a self-contained set of declarations and assertions.
func (s *Solver) checkText(txt string) verdict {
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	if s.dead {
		return vUnknown
	}
	if s.cmd == nil {
		if err := s.start(); err != nil {
			s.dead = true
			return vUnknown
		}
	}
	s.queries++
	s.in.WriteString("(push 1)\n" + txt + "(check-sat)\n")
	s.in.Flush()
	line, err := s.readLine()
	if err != nil {
		s.stop()
		s.nUnknown++
		return vUnknown
	}
	s.in.WriteString("(pop 1)\n")
	switch line {
	case "sat":
		s.nSat++
		return vSat
	case "unsat":
		s.nUnsat++
		return vUnsat
	}
	s.nUnknown++
	if line != "unknown" {
		s.stop()
	}
	return vUnknown
}

var debugSolver = false

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(b)
		if b == '(' {
			depth++
			started = true
		} else if b == ')' {
			depth--
		}
		if started && depth == 0 {
			return sb.String(), nil
		}
	}
}

func parseModel(t string) map[int32]uint64 {
	m := map[int32]uint64{}
	toks := strings.FieldsFunc(t, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(toks); i++ {
		if toks[i][0] == 'b' && len(toks[i]) > 1 && toks[i][1] >= '0' && toks[i][1] <= '9' {
			id, err := strconv.Atoi(toks[i][1:])
			if err != nil {
				continue
			}
			v := toks[i+1]
			switch {
			case strings.HasPrefix(v, "#x"):
				x, _ := strconv.ParseUint(v[2:], 16, 64)
				m[int32(id)] = x
				i++
			case strings.HasPrefix(v, "#b"):
				x, _ := strconv.ParseUint(v[2:], 2, 64)
				m[int32(id)] = x
				i++
			}
		}
	}
	return m
}
