// Package proto holds the types exchanged between the monitor (which never
// imports the library) and the worker (which runs the library).
package proto

import (
	"fmt"
	"strings"
)

// Net names a network: "main" and "test" are the library's exported values,
// "lit" is a freshly allocated network with the given prefixes.
type Net struct {
	Name string `json:"n"`
	P    string `json:"p,omitempty"`
	H    string `json:"h,omitempty"`
	Slot int    `json:"s,omitempty"` // "slot": the network object in this slot, now holding P and H
}

// Fault scripts the random source of one operation.
type Fault struct {
	FailAt  int    `json:"f"`            // bytes delivered before the error; <0: never fails
	Partial bool   `json:"p,omitempty"`  // deliver the last bytes together with the error
	Err     string `json:"e,omitempty"`  // "err", "eof", "ueof", "eintr" ...: see worker script()
	Once    bool   `json:"o,omitempty"`  // the error is transient
	Chunk   int    `json:"c,omitempty"`  // at most that many bytes per read
	Zero    int    `json:"z,omitempty"`  // every Zero-th read returns 0, nil
	Slow    int    `json:"s,omitempty"`  // milliseconds which ...
	SlowAt  int    `json:"sa,omitempty"` // ... the read after this many takes
}

// Op is one operation of a scenario. Slots are numbered from 1; 0 is "none".
type Op struct {
	K     string `json:"k"`
	S     []byte `json:"s,omitempty"`
	S2    []byte `json:"s2,omitempty"`
	SS    int    `json:"ss,omitempty"` // text from this slot instead of S
	SF    string `json:"sf,omitempty"` // which text of that slot: wif, hex, str
	Net   *Net   `json:"net,omitempty"`
	A     int    `json:"a,omitempty"`
	B     int    `json:"b,omitempty"`
	Out   int    `json:"o,omitempty"`
	F     bool   `json:"f,omitempty"`
	N     int    `json:"n,omitempty"`
	List  string `json:"l,omitempty"`
	X     string `json:"x,omitempty"` // hex literals for mkPriv / mkPub ("nil" = nil pointer)
	Y     string `json:"y,omitempty"`
	Hex   string `json:"hx,omitempty"`
	WIF   string `json:"w,omitempty"`
	Field string `json:"fl,omitempty"` // mut: key, x, y, bytes
	Mode  string `json:"m,omitempty"`  // mut: set, add, lsh, neg, bits
	Ent   []byte `json:"e,omitempty"`  // scripted random bytes ...
	Seed  uint64 `json:"es,omitempty"` // ... followed by this deterministic stream
	Fault *Fault `json:"ft,omitempty"`
	JL    string `json:"jl,omitempty"` // monitor only: the list that List "slot:N" denotes at this point
}

// Scenario is a straight-line program over private slots.
type Scenario struct {
	ID     int    `json:"id"`
	Ops    []Op   `json:"ops"`
	Deep   bool   `json:"deep,omitempty"` // dump every slot and the globals after each operation
	Tag    string `json:"tag,omitempty"`
	Det    bool   `json:"det,omitempty"`    // record errors in full detail
	Lag    int    `json:"lag,omitempty"`    // monitor only: repeats what ran this many scenarios before
	Env    bool   `json:"env,omitempty"`    // record the state of the process after each operation
	Sparse int    `json:"sparse,omitempty"` // with Env: only after every so many operations, and the last

	Where string `json:"where,omitempty"` // monitor only: the surroundings of the process
}

// Val is the full observable content of a value. Numbers are hex ("nil" if nil).
type Val struct {
	T   string `json:"t"` // priv, pub, str, bytes, bool, nil
	Key string `json:"k,omitempty"`
	Hex string `json:"h,omitempty"`
	WIF string `json:"w,omitempty"`
	X   string `json:"x,omitempty"`
	Y   string `json:"y,omitempty"`
	NP  string `json:"np,omitempty"`
	NH  string `json:"nh,omitempty"`
	NN  bool   `json:"nn,omitempty"` // network pointer is nil
	S   []byte `json:"s,omitempty"`
	B   bool   `json:"b,omitempty"`
}

// Ev is the record of one operation.
type Ev struct {
	Sc    int                 `json:"sc"`
	I     int                 `json:"i"`
	S     []byte              `json:"s,omitempty"` // the text actually passed
	A     *Val                `json:"a,omitempty"` // arguments before the call
	B     *Val                `json:"b,omitempty"`
	A2    *Val                `json:"a2,omitempty"` // arguments after the call, if they changed
	B2    *Val                `json:"b2,omitempty"`
	R     Val                 `json:"r"`
	Err   bool                `json:"e,omitempty"` // error returned / ok==false
	Msg   string              `json:"m,omitempty"`
	Det   string              `json:"md,omitempty"` // the error, its fields and what it wraps
	Env   map[string]string   `json:"en,omitempty"` // process-wide state
	Panic string              `json:"p,omitempty"`
	Kept  string              `json:"kp,omitempty"` // how a value returned earlier, and not touched since, has changed
	Taken []byte              `json:"tk,omitempty"` // concurrent jobs: the random bytes this call got
	Skip  bool                `json:"sk,omitempty"` // argument slot empty
	Read  int                 `json:"rd,omitempty"` // random bytes delivered
	After int                 `json:"ra,omitempty"` // random bytes delivered after the last reader error
	Calls int                 `json:"rc,omitempty"`
	Net   string              `json:"nc,omitempty"`  // how the call changed the network it was given
	Out   int                 `json:"out,omitempty"` // bytes written to stdout/stderr
	Slots map[int]Val         `json:"sl,omitempty"`
	Glob  string              `json:"g,omitempty"`
	Lists map[string][]string `json:"li,omitempty"`
}

// ListNames are the exported word lists.
var ListNames = []string{"English", "French", "Japanese", "Italian", "Spanish", "Korean", "Czech", "ChineseTraditional", "ChineseSimplified"}

// CustomList builds a word list of n distinct words, deterministically.
func CustomList(n int) []string {
	l := make([]string, n)
	for i := range l {
		l[i] = fmt.Sprintf("w%05d", (i*40503+77)%100003)
	}
	return l
}

// SwapLists are variants of the English list: the same words, two of them swapped
// (or, "rev", all but the first and last in reverse order).
var SwapLists = []string{"swap:0:2047", "swap:1:2", "swap:5:1000", "rev"}

// Variant builds a variant of the English list.
func Variant(name string, english []string) []string {
	l := append([]string{}, english...)
	var i, j int
	if c, _ := fmt.Sscanf(name, "swap:%d:%d", &i, &j); c == 2 {
		l[i], l[j] = l[j], l[i]
		return l
	}
	if name == "rev" {
		for i, j := 1, len(l)-2; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
		return l
	}
	if name == "odd" { // capitals, accents, signs, digits, words that differ only in case or are parts of others
		for i := range l {
			switch w := english[i]; i % 16 {
			case 1:
				l[i] = strings.ToUpper(english[i-1])
			case 3:
				l[i] = strings.ToUpper(w[:1]) + w[1:]
			case 5:
				l[i] = w + "-" + w
			case 7:
				l[i] = "\u00e9" + w
			case 9:
				l[i] = fmt.Sprint(i)
			case 10:
				l[i] = english[i-1] + "s'"
			case 11:
				l[i] = "\U0001F600" + w + ":"
			case 12:
				l[i] = w + "\xff\xc3"
			case 13:
				l[i] = w + w
			case 14:
				l[i] = w + "\xff\xc4"
			case 15:
				l[i] = "\u00c9" + w
			}
		}
		return l
	}
	return nil
}

// ConcOp is one entry of the concurrent workload: a scenario whose last
// operation's outcome is compared.
type ConcJob struct {
	Prelude []Op   `json:"prelude"` // executed before the start barrier (literals only when cold)
	Slots   int    `json:"slots"`
	Table   []Op   `json:"table"`
	Expect  []Ev   `json:"expect"` // same length as Table, nil when cold
	G       int    `json:"g"`
	Rounds  int    `json:"rounds"`
	PerG    int    `json:"per"`
	Procs   int    `json:"procs"`
	Seed    uint64 `json:"seed"`
	Yield   bool   `json:"yield"`
	Same    bool   `json:"same"`            // all goroutines follow the same order
	Jitter  bool   `json:"jitter"`          // slow, uneven random source
	Broken  bool   `json:"broken"`          // the random source fails in one read out of two
	Record  bool   `json:"record"`          // keep the random bytes each call got
	Pause   string `json:"pause,omitempty"` // run with points to wait at before every statement
	Overlap bool   `json:"overlap"`         // record which operation kinds were seen in flight together
}
