package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// Op is one operation of a simulated history. I and F are its integer and float arguments.
type Op struct {
	K string    `json:"k"`
	I []int     `json:"i,omitempty"`
	F []float64 `json:"f,omitempty"`
}

func (o *Op) i(n int) int {
	if n < len(o.I) {
		return o.I[n]
	}
	return 0
}
func (o *Op) f(n int) float64 {
	if n < len(o.F) {
		return o.F[n]
	}
	return 0
}
func (o *Op) v(n int) V { return V{o.f(n), o.f(n + 1)} }

func (o Op) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

// Cfg is the swarm configuration of one run.
type Cfg struct {
	Scen   string             `json:"scen"`
	Hash   bool               `json:"hash,omitempty"`
	HashD  float64            `json:"hashd,omitempty"`
	HashN  int                `json:"hashn,omitempty"`
	Iter   int                `json:"iter"`
	Grav   V                  `json:"grav"`
	Damp   float64            `json:"damp"`
	Sleep  float64            `json:"sleep,omitempty"` // 0: off
	Idle   float64            `json:"idle,omitempty"`
	Slop   float64            `json:"slop"`
	Handle []HandlerCfg       `json:"handlers,omitempty"`
	P      map[string]float64 `json:"p,omitempty"`     // probabilities and scenario parameters
	Debug  bool               `json:"debug,omitempty"` // with the assertions of the library (tag debug)
	Pre    bool               `json:"pre,omitempty"`   // with yield points in the library (tag preempt)
	Proc   []int              `json:"proc,omitempty"`  // two processes to compare (C16)
}

func (c *Cfg) p(k string) float64 { return c.P[k] }

type HandlerCfg struct {
	Wild bool `json:"wild,omitempty"`
	A    int  `json:"a"`
	B    int  `json:"b,omitempty"`
	Mask int  `json:"mask"`          // which of begin, pre, post, separate are set
	Fwd  int  `json:"fwd,omitempty"` // which of them call the wildcard handlers
}

type Trace struct {
	Property  string  `json:"property"`
	Seed      uint64  `json:"seed"`
	Cfg       Cfg     `json:"cfg"`
	Ops       []Op    `json:"ops"`
	Violation string  `json:"violation,omitempty"`
	Note      string  `json:"note,omitempty"`
	Worlds    []Trace `json:"worlds,omitempty"` // several spaces in one run (C17)
	Sched     []int   `json:"sched,omitempty"`
}

func (t *Trace) write(path string) error {
	b, err := json.Marshal(t)
	if err != nil {
		return err
	}
	return os.WriteFile(path, b, 0o644)
}

func readTrace(path string) (*Trace, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	t := &Trace{}
	if err := json.Unmarshal(b, t); err != nil {
		return nil, err
	}
	return t, nil
}

type Violation struct {
	Prop string
	Msg  string
	Op   int
	Cat  string
}

func (v *Violation) String() string { return fmt.Sprintf("op %d: %s [%s]", v.Op, v.Msg, v.Prop) }
