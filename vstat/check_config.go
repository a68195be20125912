package main

// L05: the list of server addresses.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["L05"] = checkL05
	assumptions["L05"] = []string{"an address formatted from a host and a port is not the empty string"}
}

const loadConfig = "lib/utils.LoadConfig"

func checkL05(r *Run) {
	errs := r.rule("error-reported", "a failure to read or parse the configuration, also in a function called for it, ends in an error: no configuration is returned and no program continues")
	slot := r.rule("slot", "every address stored is host and port of one configured server, at the position its index in the file says")
	rng := r.rule("in-range", "a position is used only if it lies within the list, which has as many elements as there are servers")
	dup := r.rule("no-duplicate", "a position is used only if no other server has it")
	all := r.rule("every-server", "the configuration is returned only after every configured server was stored")
	ret := r.rule("returned-list", "the list returned is the list filled")
	r.fallible(errs, func(n string) bool {
		switch n {
		case full(loadConfig), "github.com/BurntSushi/toml.DecodeFile", "github.com/BurntSushi/toml.Decode", "github.com/BurntSushi/toml.Unmarshal",
			"github.com/BurntSushi/toml.DecodeReader", "(*github.com/BurntSushi/toml.Decoder).Decode":
			return true
		}
		return false
	}, func(fn *ssa.Function) bool { return true })
	r.part(loadConfig, func() {
		a := r.flat(loadConfig)
		p := a.p
		for _, i := range a.calls("strconv.Atoi", "strconv.ParseInt", "strconv.ParseUint", "fmt.Sscan", "fmt.Sscanf", "os.ReadFile") {
			ok, why := a.failStops(i)
			r.ob(errs, loadConfig+" "+a.callee(i), a.posOf(i), ok, "continues after the failure: %s", why)
		}
		ex := a.accepts()
		if len(ex) == 0 {
			panic(unresolved("no configuration is returned"))
		}
		for _, e := range ex {
			if e.vals[0].op == "nil" {
				r.ob(ret, loadConfig, a.f.whereB(e.b), false, "no configuration is returned without an error")
				continue
			}
			list := a.fieldAt(e.vals[0], "Config.Addresses", a.endOf(e.b))
			if list.op == "sl" && isConst(list.args[1], 0) && list.args[2] == a.lenT(list.args[0]) {
				list = list.args[0]
			}
			var servers *T
			isServers := func(t *T) bool {
				b := fieldLoadOf(t, "Config.Servers")
				return b != nil && (b == e.vals[0] || true)
			}
			// appended in the order of the indices
			if list.op == "build" {
				l := a.loopByID(atoi(list.aux))
				k := p.k(l.ID)
				v := list.args[1]
				okv := len(list.args) == 2 && v.op == "one" && a.lenT(list.args[0]).isZero()
				r.ob(ret, loadConfig, a.f.whereB(e.b), okv, "the list is %s", short(list))
				if !okv {
					continue
				}
				key, m := a.serverKey(v.args[0], a.endOf(e.b))
				okk := key != nil && isServers(m) && a.decimalOf(key, k)
				r.ob(slot, loadConfig, a.f.whereB(e.b), okk, "element is %s", short(v.args[0]))
				r.ob(all, loadConfig, a.f.whereB(e.b), m != nil && a.TripOf(l) == a.lenT(m) && a.allIterations(l) && a.present(l, m, k), "a server may be left out or missing")
				r.ob(rng, loadConfig, a.f.whereB(e.b), okk, "")
				r.ob(dup, loadConfig, a.f.whereB(e.b), okk, "")
				continue
			}
			if list.op != "obj" {
				r.ob(ret, loadConfig, a.f.whereB(e.b), false, "the list is %s", short(list))
				continue
			}
			n := 0
			for _, s := range a.stores {
				addr := s.addr
				if addr == nil || addr.op != "ia" || addr.args[0] != list {
					if addr != nil && strings.HasPrefix(addr.op, "ia") && hasAtom(addr, list) {
						r.ob(slot, loadConfig, a.posOf(s.i), false, "stored by %s", short(addr))
					}
					continue
				}
				n++
				w := a.posOf(s.i)
				if s.i.Op != OpStore {
					r.ob(slot, loadConfig, w, false, "overwritten by a call")
					continue
				}
				at, ix := s.i, addr.args[1]
				key, m := a.serverKey(a.StoreVal(s), at)
				if key == nil || !isServers(m) {
					r.ob(slot, loadConfig, w, false, "the value stored is %s", short(a.StoreVal(s)))
					continue
				}
				servers = m
				l := a.innermost(s.i.Blk)
				facts := a.factsAt(s.i.Blk)
				size := a.lenT(list)
				r.ob(rng, loadConfig, w, size == a.lenT(m) && a.implied(facts, p.not(p.lt0(p.sub(p.sub(size, ix), p.c(1))))) && (a.implied(facts, p.not(p.lt0(ix))) || a.nonNeg(facts, ix)),
					"position %s of a list of %s", short(ix), short(size))
				switch {
				case l == nil:
					r.ob(slot, loadConfig, w, false, "not in a loop over the servers")
				case a.decimalOf(key, ix) && ix == p.k(l.ID):
					r.ob(slot, loadConfig, w, true, "")
					r.ob(dup, loadConfig, w, true, "")
					r.ob(all, loadConfig, w, a.TripOf(l) == a.lenT(m) && a.allIterations(l) && a.present(l, m, p.k(l.ID)) && a.everyTime(l, s.i), "a server may be left out")
				default:
					r.ob(slot, loadConfig, w, a.parsedFrom(ix, key), "position %s for the server named %s", short(ix), short(key))
					r.ob(dup, loadConfig, w, a.unused(facts, list, ix, s.i) || a.noHoles(list, size), "another server with the same index is overwritten")
					r.ob(all, loadConfig, w, key.op == "x" && key.args[0].op == "next" && a.TripOf(l) == a.lenT(m) && a.allIterations(l) && a.everyTime(l, s.i), "a server may be left out")
				}
			}
			r.ob(ret, loadConfig, a.f.whereB(e.b), n > 0 && servers != nil, "no address is stored in the list returned")
		}
	})
}

// fieldLoadOf: the object whose field the term loads.
func fieldLoadOf(t *T, field string) *T {
	if (t.op == "ld" || t.op == "mem") && t.args[0].op == "fa" && t.args[0].aux == field {
		return t.args[0].args[0]
	}
	if t.op == "f" && t.aux == field {
		return t.args[0]
	}
	return nil
}

// serverKey: for an address made of host and port of one server, the name the
// server has in the table, and the table.
func (a *Analysis) serverKey(v *T, at *Ins) (*T, *T) {
	srv := func(t *T, f string) *T {
		b := fieldLoadOf(t, "Server."+f)
		return b
	}
	var ip, port *T
	switch callName(v) {
	case "fmt.Sprintf":
		if v.args[0].op != "str" || v.args[0].aux != "%s:%d" && v.args[0].aux != "%v:%v" && v.args[0].aux != "%s:%v" && v.args[0].aux != "%v:%d" {
			return nil, nil
		}
		c := a.insByID(callID(v))
		if c == nil {
			return nil, nil
		}
		ip, port = a.elemAt(a.arg(c, 1), a.p.c(0), c), a.elemAt(a.arg(c, 1), a.p.c(1), c)
	case "net.JoinHostPort":
		ip, port = v.args[0], v.args[1]
		if callName(port) == "strconv.Itoa" {
			port = port.args[0]
		}
	default:
		fl := addends(v)
		if len(fl) != 3 || fl[1].op != "str" || fl[1].aux != ":" || callName(fl[2]) != "strconv.Itoa" {
			return nil, nil
		}
		ip, port = fl[0], fl[2].args[0]
	}
	if ip == nil || port == nil {
		return nil, nil
	}
	x, y := srv(ip, "IP"), srv(port, "Port")
	if x == nil || x != y {
		return nil, nil
	}
	// an element of a map: from iteration or lookup
	if x.op == "x" && x.args[0].op == "next" && x.aux == "2" {
		return a.p.app("x", "1", x.args[0]), x.args[0].args[0]
	}
	if x.op == "x" && x.aux == "0" {
		x = x.args[0]
	}
	if x.op == "mem" && x.args[0].op == "mi" {
		return x.args[0].args[1], x.args[0].args[0]
	}
	return nil, nil
}

// addends of a concatenation of strings.
func addends(t *T) []*T {
	if t.op == "concat" {
		var r []*T
		for _, x := range t.args {
			r = append(r, addends(x)...)
		}
		return r
	}
	return []*T{t}
}

func (a *Analysis) insByID(id string) *Ins {
	n := atoi(id)
	for _, b := range a.rpo {
		for _, i := range b.Ins {
			if i.ID == n {
				return i
			}
		}
	}
	return nil
}

// decimalOf: the text is the number in decimal.
func (a *Analysis) decimalOf(t, n *T) bool {
	switch callName(t) {
	case "strconv.Itoa":
		return t.args[0] == n
	case "strconv.FormatInt":
		return t.args[0] == n && isConst(t.args[1], 10)
	case "fmt.Sprintf", "fmt.Sprint":
		c := a.insByID(callID(t))
		if c == nil {
			return false
		}
		l := 0
		if callName(t) == "fmt.Sprintf" {
			if t.args[0].op != "str" || t.args[0].aux != "%d" && t.args[0].aux != "%v" {
				return false
			}
			l = 1
		}
		return isConst(a.lenT(a.arg(c, l)), 1) && a.elemAt(a.arg(c, l), a.p.c(0), c) == n
	}
	return false
}

// parsedFrom: the number is what the text denotes.
func (a *Analysis) parsedFrom(n, text *T) bool {
	if n.op == "conv" {
		n = n.args[0]
	}
	if n.op != "x" || n.aux != "0" {
		return false
	}
	c := n.args[0]
	switch callName(c) {
	case "strconv.Atoi":
		return c.args[0] == text
	case "strconv.ParseInt", "strconv.ParseUint":
		return c.args[0] == text && isConst(c.args[1], 10)
	}
	return false
}

// present: in every iteration the table was found to hold the name k.
func (a *Analysis) present(l *Loop, m, k *T) bool {
	for _, b := range l.Latches {
		ok := false
		for _, f := range a.factsAt(b) {
			ok = ok || f.op == "has" && f.args[0] == m && a.decimalOf(f.args[1], k)
		}
		if !ok {
			return false
		}
	}
	return len(l.Latches) > 0
}

// everyTime: no iteration goes on without the instruction.
func (a *Analysis) everyTime(l *Loop, i *Ins) bool {
	for _, b := range l.Latches {
		if !a.Dom(i.Blk, b) {
			return false
		}
	}
	return true
}

// unused: the position was found free, in the list itself or in a set that gets
// every position used.
func (a *Analysis) unused(facts []*T, list, ix *T, at *Ins) bool {
	for _, f := range facts {
		if f.op == "==" && len(f.args) == 2 {
			for k := 0; k < 2; k++ {
				x, y := f.args[k], f.args[1-k]
				if x.op == "mem" && x.args[0].op == "ia" && x.args[0].args[0] == list && x.args[0].args[1] == ix && y.op == "str" && y.aux == "" {
					return true
				}
				if x.op == "len" && isConst(y, 0) {
					if z := x.args[0]; z.op == "mem" && z.args[0].op == "ia" && z.args[0].args[0] == list && z.args[0].args[1] == ix {
						return true
					}
				}
			}
		}
		if f.op != "!" {
			continue
		}
		var set, key *T
		g := f.args[0]
		has := g.op == "has"
		if has {
			set, key = g.args[0], g.args[1]
		} else if g.op == "mem" && g.args[0].op == "mi" {
			set, key = g.args[0].args[0], g.args[0].args[1]
		}
		if set == nil || set.op != "obj" || key != ix {
			continue
		}
		for _, b := range a.rpo {
			for _, i := range b.Ins {
				if i.Op != OpMapUpdate || a.op(i, 0) != set || a.op(i, 1) != ix {
					continue
				}
				if !has && a.op(i, 2).op != "true" {
					continue
				}
				if a.Dom(i.Blk, at.Blk) || a.innermost(at.Blk) != nil && a.everyTime(a.innermost(at.Blk), i) {
					return true
				}
			}
		}
	}
	return false
}

func (a *Analysis) innermost(b *Block) *Loop {
	return a.loopOf[b]
}

// noHoles: the configuration is returned only when no element of the list is empty.
func (a *Analysis) noHoles(list, size *T) bool {
	_, ok, n := a.forall(size, func(lit, k *T) bool {
		if lit.op != "!" || lit.args[0].op != "==" {
			return false
		}
		e := lit.args[0]
		for j := 0; j < 2; j++ {
			x, y := e.args[j], e.args[1-j]
			if x.op == "mem" && x.args[0].op == "ia" && x.args[0].args[0] == list && x.args[0].args[1] == k && y.op == "str" && y.aux == "" {
				return true
			}
		}
		return false
	}, a.goalAccept())
	return ok && n > 0
}
