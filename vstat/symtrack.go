package main

// What one iteration of a loop does to the variables it carries: each variable
// becomes a function of its value at the start of the iteration.

import (
	"go/token"
	"strconv"
	"strings"
)

type symTracker struct {
	a    *Analysis
	l    *Loop
	head []*Ins // carried variables (phis of the header)
	web  []*Ins // other phis inside the loop they pass through
	hidx map[*Ins]int
	widx map[*Ins]int
	tm   map[int]*T
}

func (a *Analysis) symTrack(l *Loop, vars ...*Ins) *symTracker {
	s := &symTracker{a: a, l: l, hidx: map[*Ins]int{}, widx: map[*Ins]int{}, tm: map[int]*T{}}
	var add func(i *Ins)
	add = func(i *Ins) {
		switch i.Op {
		case OpConvert, OpMakeIface:
			add(i.Args[0])
		case OpBin:
			if l.Blocks[i.Blk] {
				add(i.Args[0])
				add(i.Args[1])
			}
		case OpPhi:
			if !l.Blocks[i.Blk] {
				return
			}
			if i.Blk == l.Header {
				if _, ok := s.hidx[i]; ok {
					return
				}
				s.hidx[i] = len(s.head)
				s.head = append(s.head, i)
			} else {
				if _, ok := s.widx[i]; ok {
					return
				}
				s.widx[i] = len(s.web)
				s.web = append(s.web, i)
			}
			for _, x := range i.Args {
				add(x)
			}
		}
	}
	for _, v := range vars {
		add(v)
	}
	return s
}

// values are "h<k>+<n>" (carried variable plus a constant), "c<n>" or "t<id>" (a term)
func (s *symTracker) eval(i *Ins, st []string, b *Block) string {
	switch i.Op {
	case OpConvert, OpMakeIface:
		if i.Op == OpMakeIface || isIntType(i.Typ) {
			return s.eval(i.Args[0], st, b)
		}
	case OpPhi:
		if k, ok := s.hidx[i]; ok {
			return "h" + strconv.Itoa(k) + "+0"
		}
		if k, ok := s.widx[i]; ok {
			return st[k]
		}
	case OpConst:
		if n, ok := i.isConstInt(); ok {
			return "c" + strconv.FormatInt(n, 10)
		}
	case OpBin:
		if i.Tok == token.ADD || i.Tok == token.SUB {
			x, y := s.eval(i.Args[0], st, b), s.eval(i.Args[1], st, b)
			if i.Tok == token.ADD && strings.HasPrefix(x, "c") {
				x, y = y, x
			}
			if strings.HasPrefix(y, "c") && !strings.HasPrefix(x, "t") {
				n, _ := strconv.ParseInt(y[1:], 10, 64)
				if i.Tok == token.SUB {
					n = -n
				}
				if strings.HasPrefix(x, "c") {
					m, _ := strconv.ParseInt(x[1:], 10, 64)
					return "c" + strconv.FormatInt(m+n, 10)
				}
				q := strings.IndexByte(x, '+')
				m, _ := strconv.ParseInt(x[q+1:], 10, 64)
				return x[:q+1] + strconv.FormatInt(m+n, 10)
			}
		}
	}
	t := s.a.at(i, b)
	s.tm[t.id] = t
	return "t" + strconv.Itoa(t.id)
}

// iterations explores the bodies of the loop: facts gives flags for the edges
// taken, judge gets the flags and the values of the carried variables at the end
// of the iteration and says whether they are right.
func (s *symTracker) iterations(facts func(lit *T) string, judge func(flags string, vals []string) bool) ([]*Block, bool) {
	a, l := s.a, s.l
	split := func(q string) (string, []string) {
		k := strings.IndexByte(q, '|')
		return q[:k], strings.Split(q[k+1:], ",")
	}
	empty := make([]string, len(s.web))
	for k := range empty {
		empty[k] = "?"
	}
	init := "|" + strings.Join(empty, ",")
	path, found := a.explore(exploreOpts{
		init: init,
		edge: func(q string, e Edge) (string, bool) {
			if q == "bad" {
				return q, true
			}
			if !l.Blocks[e.B] || !l.Blocks[e.To()] {
				return init, true
			}
			fl, st := split(q)
			for _, t := range a.lits(e) {
				if f := facts(t); f != "" && !strings.Contains(fl, f) {
					fl += f
				}
			}
			to := e.To()
			pi := predIndex(e.B, e.K)
			if to == l.Header {
				vals := make([]string, len(s.head))
				for k, h := range s.head {
					vals[k] = s.eval(h.Args[pi], st, e.B)
				}
				if !judge(fl, vals) {
					return "bad", true
				}
				return init, true
			}
			nw := append([]string{}, st...)
			for _, ph := range to.phis() {
				if k, ok := s.widx[ph]; ok {
					nw[k] = s.eval(ph.Args[pi], st, e.B)
				}
			}
			return fl + "|" + strings.Join(nw, ","), true
		},
		goal: func(s *pst) bool { return s.q == "bad" },
	})
	return path, !found
}
