// Package sc holds what is independent of the address family: the script of a
// simulated run, its generator, the recorded history and the oracles.
package sc

import (
	"fmt"

	"verifsim/md"
)

// Operation kinds. t: mutable table, i: immutable table, m: mutable set, s:
// immutable set, o: other.
const (
	TIns  = "t.insert"
	TUpd  = "t.update"
	TIou  = "t.insertorupdate"
	TGoi  = "t.getorinsert"
	TDel  = "t.remove"
	TGet  = "t.get"
	TLpm  = "t.longestmatch"
	TNum  = "t.numentries"
	TSnap = "t.table"

	IGet   = "i.get"
	ILpm   = "i.longestmatch"
	INum   = "i.numentries"
	IWalk  = "i.walk"
	IDiff  = "i.diff"
	IAgg   = "i.aggregate"
	IMap   = "i.map"
	IBuild = "i.build"
	IClone = "i.table_"

	MIns   = "m.insert"
	MRem   = "m.remove"
	MHas   = "m.contains"
	MEmpty = "m.isempty"
	MEq    = "m.equal"
	MCnt   = "m.numaddresses"
	MUni   = "m.union"
	MInt   = "m.intersection"
	MDif   = "m.difference"
	MSnap  = "m.set"

	SHas   = "s.contains"
	SEmpty = "s.isempty"
	SEq    = "s.equal"
	SCnt   = "s.numaddresses"
	SUni   = "s.union"
	SInt   = "s.intersection"
	SDif   = "s.difference"
	SWalkP = "s.walkprefixes"
	SWalkR = "s.walkranges"
	SWalkA = "s.walkaddresses"
	SStr   = "s.string"
	SNumP  = "s.numprefixes"
	SFind  = "s.findavailableprefix"
	SBuild = "s.build"
	SClone = "s.set_"

	OHas   = "o.contains" // contains of an address, prefix or range
	OFix   = "o.set"      // any SetI turned into an immutable set
	OZeroT = "o.zerotable"
	OZeroS = "o.zeroset"

	VCall  = "v.call"  // functions of addresses, masks, prefixes and ranges
	VAgain = "v.again" // look at a value made before
)

// Arg is a set argument.
type Arg struct {
	Form string `json:"form"` // nil addr pfx rng slot handle zero zeroset
	P    md.P   `json:"p"`
	Hi   md.A   `json:"hi"`
	S    int    `json:"s,omitempty"`
	H    int    `json:"h,omitempty"`
	Wrap bool   `json:"wrap,omitempty"` // behind a caller-defined SetI
}

// Fault is what caller code does at its N-th invocation within an operation.
type Fault struct {
	Kind string `json:"kind"` // panic goexit reenter
	N    int    `json:"n"`
	Sub  []*Op  `json:"sub,omitempty"`
}

// Op is one operation of a client thread. Which fields matter depends on K.
type Op struct {
	ID    int    `json:"id"`
	K     string `json:"k"`
	H     int    `json:"h"`  // mutable object
	A     int    `json:"a"`  // which copy of its handle
	S     int    `json:"s"`  // immutable object
	S2    int    `json:"s2"` // second one (diff, equal)
	D     int    `json:"d"`  // where the result goes (slot; handle for clone and build)
	D2    int    `json:"d2"`
	P     md.P   `json:"p"`            // with host bits
	PF    string `json:"pf,omitempty"` // pfx addr nil wrap
	V     int    `json:"v"`
	Tag   int    `json:"tag,omitempty"`
	N     int    `json:"n"` // stop after N callbacks (-1: never); length
	M     int    `json:"m"` // diff: mask of nil callbacks; map: mapper; build: outcome
	Arg   *Arg   `json:"arg,omitempty"`
	Arg2  *Arg   `json:"arg2,omitempty"`
	Fault *Fault `json:"fault,omitempty"`
	Sub   []*Op  `json:"sub,omitempty"` // build body
	Retry int    `json:"retry,omitempty"`
	Lock  bool   `json:"lock,omitempty"` // hold the object's outside lock
}

// TabInit is a mutable table that exists from the start.
type TabInit struct {
	E []md.E `json:"e"` // in insertion order, with host bits
	// Warm: entries inserted and removed again before the run
	Warm []md.P `json:"warm,omitempty"`
	// Zero: made from a zero-value immutable object
	Zero bool `json:"zero,omitempty"`
}

type SetInit struct {
	Ins  []*Arg `json:"ins"`
	Zero bool   `json:"zero,omitempty"`
}

// Script is a whole run except for its schedule. Handles 0..len(Tabs)-1 are
// tables, the next len(Sets) are sets, the rest are made by clone and build.
type Script struct {
	Fam     int       `json:"fam"` // 4 or 6
	Prop    string    `json:"prop"`
	Val     int       `json:"val"` // value kind
	Tabs    []TabInit `json:"tabs"`
	Sets    []SetInit `json:"sets"`
	NH      int       `json:"nh"`
	NS      int       `json:"ns"`
	Copies  int       `json:"copies"`
	Threads [][]*Op   `json:"threads"`
	Univ    []md.P    `json:"univ"`
	Frame   bool      `json:"frame,omitempty"` // re-observe all objects after every operation
	Probe   bool      `json:"probe,omitempty"` // compare walks with lookups
	Solo    bool      `json:"solo,omitempty"`  // measure each operation's solo cost
	Use     bool      `json:"use,omitempty"`   // exercise derived objects
	Cost    bool      `json:"cost,omitempty"`  // watch the comparisons of diffs
	Multi   bool      `json:"multi,omitempty"` // several writers per object
	// Iso: every mutable object is used by one thread only; slots 0.. hold
	// snapshots of the initial objects, for all threads
	Iso   bool   `json:"iso,omitempty"`
	Hist  bool   `json:"hist,omitempty"`  // compare all objects with equal ones at the end
	Vals  bool   `json:"vals,omitempty"`  // every call must give what it gives on its own
	Whole bool   `json:"whole,omitempty"` // compare the steps of operations on whole objects with their entries
	Grow  bool   `json:"grow,omitempty"`  // measure what writes and snapshots add to the memory
	Seed  uint64 `json:"seed"`
}

func (s *Script) W() int {
	if s.Fam == 6 {
		return 128
	}
	return 32
}

// Walk visits all operations, including nested ones.
func (s *Script) Walk(f func(o *Op)) {
	var rec func(l []*Op)
	rec = func(l []*Op) {
		for _, o := range l {
			f(o)
			rec(o.Sub)
			if o.Fault != nil {
				rec(o.Fault.Sub)
			}
		}
	}
	for _, t := range s.Threads {
		rec(t)
	}
}

func IsWrite(k string) bool {
	switch k {
	case TIns, TUpd, TIou, TGoi, TDel, MIns, MRem:
		return true
	}
	return false
}

// Status of an operation.
const (
	Pending  = "pending"
	OK       = "ok"
	Conflict = "panic"   // panicked of its own accord, not a runtime error
	Runtime  = "runtime" // runtime error
	Faulted  = "faulted" // the panic injected into caller code came out
	Exited   = "exited"  // the goroutine exit injected into caller code happened
	Budget   = "budget"  // more steps than allowed
	Skipped  = "skipped" // an object it needs does not exist
)

// Ev is one callback seen during an operation.
type Ev struct {
	C string `json:"c"`
	P md.P   `json:"p"`
	V int    `json:"v"`
	W int    `json:"w"`
}

// Content of an object: a table (T) or a set (S).
type Content struct {
	IsSet bool
	T     md.T
	S     md.Set
	Raw   []md.P // prefixes as walked
	G     []int  // which of several equal values each entry has, if they differ
	Bits  []md.A // the addresses of the prefixes of a table with their host bits, where known
	Err   string
}

// Same is stricter than Equal where values that compare equal can be told apart.
func (c Content) Same(d Content) bool {
	if !c.Equal(d) {
		return false
	}
	if len(c.G) == len(d.G) {
		for i, g := range c.G {
			if g != d.G[i] {
				return false
			}
		}
	}
	return c.SameBits(d)
}

// SameBits tells whether the prefixes have the same host bits, as far as known.
func (c Content) SameBits(d Content) bool {
	if len(c.Bits) == len(d.Bits) {
		for i, a := range c.Bits {
			if a != d.Bits[i] {
				return false
			}
		}
	}
	return true
}

// Tags shows what Same compares in addition to the contents.
func (c Content) Tags() string {
	s := ""
	for i, e := range c.T {
		if i < len(c.Bits) && c.Bits[i] != e.P.A && len(s) < 200 {
			s += fmt.Sprintf(" (%v with the address %v)", e.P, c.Bits[i])
		}
	}
	if len(c.G) == 0 {
		return s
	}
	return fmt.Sprintf("%s (variants of the values: %v)", s, c.G)
}

func (c Content) Equal(d Content) bool {
	return c.IsSet == d.IsSet && c.Err == d.Err && c.T.Equal(d.T) && c.S.Equal(d.S)
}
func (c Content) String() string {
	if c.Err != "" {
		return "<" + c.Err + ">"
	}
	if c.IsSet {
		return "set " + c.S.String()
	}
	return "table " + c.T.String()
}

// Short is String, bounded.
func (c Content) Short() string {
	s := c.String()
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}
func (c Content) Hash() uint64 {
	if c.IsSet {
		return c.S.Hash()
	}
	return c.T.Hash()
}

// ArgX is what a set argument turned out to be.
type ArgX struct {
	X      md.Set
	H      int // handle it was read from, -1 if constant
	HasX   bool
	T0, T1 int64
}

// Rec is one executed operation.
type Rec struct {
	Op       *Op
	Th       int
	Depth    int
	Inv, Ret int64
	Sw0, Sw1 int
	St       string
	Msg      string // panic text
	Hit      bool   // the fault was injected
	OK       bool   // boolean result
	V        int
	P        md.P
	N        int64
	Str      string
	Evs      []Ev
	X        *Content // content of the object it returned
	SX       *Content // content of the immutable object it was applied to
	SX2      *Content
	Arg      *ArgX
	Arg2     *ArgX
	Raw      bool // result prefix had host bits
	Steps    uint64
	Solo     uint64
	Size     int // entries of the target before or after, when Solo is measured
	Before   *Content
	AtFault  *Content
	AtSw     int
	After    *Content
	Build    *Content // content of the build's copy when the callback returned
	Notes    []string
	Fresh    int      // blocks of memory that the new version does not share (Grow)
	FreshB   int      // bytes in them
	Entries  int      // entries of the object (Grow)
	Alloc    uint64   // bytes allocated meanwhile (Whole)
	Deep     int      // lengths at which they part from the operation's prefix
	Cmp      int      // comparator calls
	CmpBad   []string // comparator calls that should not have happened
	Parent   *Rec
}

// Violation is one finding.
type Violation struct {
	Prop  string `json:"prop"`
	Class string `json:"class"`
	Op    int    `json:"op"`
	Msg   string `json:"msg"`
	// Known finding identification key
	Key string `json:"key"`
}

// Hist is everything the oracles look at.
type Hist struct {
	S      *Script
	Recs   []*Rec    // in order of invocation
	Init   []Content // of the initial handles, from the model
	Born   map[int]*Born
	Final  map[int]Content // content of handles at the end
	Slots  map[int]*SlotInfo
	Mapped int         // cost mode: entries given another value by Map
	Extra  []Violation // found while running
	Stuck  []int       // threads blocked for ever
	Leaked []int       // threads whose operations left a goroutine behind
	Aband  []int
	Locks  bool
}

// Born describes a handle made during the run.
type Born struct {
	Rec *Rec
	X   Content // of the immutable object it was made from
	At  int64
}

type SlotInfo struct {
	ID    int
	Rec   *Rec
	X     Content // when it was made
	Final Content // at the end
	// Probe compares the walk with lookups: "" or what is wrong
	Probe func(want Content) string
}
