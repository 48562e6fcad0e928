package main

import (
	"encoding/json"

	sim "github.com/adamcolton/parlex/zzsim"
)

// Spec is one simulated run written out: the components, the shared inputs,
// what every client does, the faults and the schedule. Running a Spec is a
// pure function of the Spec and the code under test.
type Spec struct {
	Prop   string   `json:"prop"`
	Seed   uint64   `json:"seed"`
	Fam    string   `json:"fam,omitempty"`
	Defs   []Def    `json:"defs,omitempty"`
	Setup  []Op     `json:"setup,omitempty"` // configuration calls after building
	Inputs []Input  `json:"inputs,omitempty"`
	Warm   []Op     `json:"warm,omitempty"` // calls before the clients start
	Tasks  [][]Op   `json:"tasks,omitempty"`
	Post   []Op     `json:"post,omitempty"`
	Build  []uint64 `json:"build,omitempty"` // map orders to build under (C05)
	MapOrd uint64   `json:"map_order,omitempty"`
	RtSeed uint64   `json:"runtime_rand,omitempty"`
	Cap    uint64   `json:"cap,omitempty"` // steps a call may take alone, if not the usual
	Sched  Sched    `json:"sched"`
	Term   *Term    `json:"term,omitempty"` // C12
	Pipe   *Pipe    `json:"pipe,omitempty"` // C08
	// filled in when a violation is reported
	Class   string `json:"class,omitempty"`
	Message string `json:"message,omitempty"`
}

// Sched is the scheduling policy, or a recorded list of context switches.
type Sched struct {
	Mode  string       `json:"mode"`
	Seed  uint64       `json:"seed,omitempty"`
	Num   int          `json:"num,omitempty"`
	Den   int          `json:"den,omitempty"`
	D     int          `json:"d,omitempty"`
	Est   uint64       `json:"est,omitempty"`
	Slow  int          `json:"slow,omitempty"`
	Trace []sim.Switch `json:"trace,omitempty"`
}

func (s Sched) policy() *sim.Policy {
	r := sim.NewRng(s.Seed)
	switch s.Mode {
	case "rand":
		return &sim.Policy{Mode: "rand", Rng: r, Num: s.Num, Den: s.Den}
	case "hot":
		return &sim.Policy{Mode: "hot", Rng: r, Num: s.Num, Den: s.Den}
	case "pct":
		return sim.NewPCT(r, s.D, s.Est)
	case "replay":
		return sim.NewReplay(s.Trace)
	}
	return &sim.Policy{Mode: "none"}
}

// Def defines a component.
type Def struct {
	K string   `json:"k"`
	S []string `json:"s,omitempty"`
	C []int    `json:"c,omitempty"`
}

// Tok is a lexeme to be handed to a parser.
type Tok struct {
	K string `json:"k"`
	V string `json:"v,omitempty"`
	L int    `json:"l,omitempty"`
	C int    `json:"c,omitempty"`
}

// Node is a tree to be handed to a reducer.
type Node struct {
	K string  `json:"k"`
	V string  `json:"v,omitempty"`
	L int     `json:"l,omitempty"`
	P int     `json:"p,omitempty"` // column
	C []*Node `json:"c,omitempty"`
}

// Input is a shared input.
type Input struct {
	Toks []Tok `json:"toks,omitempty"`
	Tree *Node `json:"tree,omitempty"`
	// Cb: use lexeme, symbol and tree implementations of the client's own
	Cb bool `json:"cb,omitempty"`
}

// Fault is injected into an operation at one of its callbacks.
type Fault struct {
	At   int    `json:"at"`
	Kind string `json:"kind"` // panic, stall, slow, reenter
	Sub  *Op    `json:"sub,omitempty"`
}

// Op is one call.
type Op struct {
	K    string   `json:"k"`
	C    int      `json:"c,omitempty"`
	S    string   `json:"s,omitempty"`
	T    string   `json:"t,omitempty"`
	Strs []string `json:"strs,omitempty"`
	I    int      `json:"i,omitempty"` // shared input, 1-based
	In   *Input   `json:"in,omitempty"`
	H    int      `json:"h,omitempty"` // held result of the same client, 1-based
	N    int      `json:"n,omitempty"`
	F    *Fault   `json:"f,omitempty"`
	Rep  int      `json:"rep,omitempty"` // repeat this call
}

func (o *Op) key() string {
	c := *o
	c.F = nil
	c.Rep = 0
	b, _ := json.Marshal(c)
	return string(b)
}

func clone[T any](x T) T {
	b, err := json.Marshal(x)
	if err != nil {
		panic(err)
	}
	var y T
	if err := json.Unmarshal(b, &y); err != nil {
		panic(err)
	}
	return y
}

// configOps change a component; everything else only uses it.
var configOps = map[string]bool{
	"add": true, "instart": true, "inend": true, "bylen": true, "byprio": true,
	"errname": true, "gadd": true, "radd": true,
}
