// Command replay searches for a concrete input on which the code in /repo breaks a property.
// It is used after the verifier has rejected an obligation (to turn the rejection into a failing
// input), and as the bounded stand-in for functions the verifier cannot reach. Every oracle here
// is written from the property alone and shares no code with the package.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"sync/atomic"
	"time"
)

type found struct{ what string }

type S struct {
	*rand.Rand
	prop     string
	deadline time.Time
	evals    int64
	seen     map[uint64]bool
	samples  []string
	desc     func() string
	cur      atomic.Value
	busy     int64 // unix nano of the running call, 0 if none
	soft     int   // checks of the deadline
	exhaust  bool
}

type result struct {
	Property  string   `json:"property"`
	Found     bool     `json:"found"`
	What      string   `json:"what,omitempty"`
	Evals     int64    `json:"evaluations"`
	Distinct  int      `json:"distinct"`
	Samples   []string `json:"samples"`
	Seconds   float64  `json:"seconds"`
	Exhausted bool     `json:"small_scope_exhausted"`
}

func hash(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// do runs one case. desc describes it completely; a panic inside is a finding.
func (s *S) do(desc func() string, f func()) {
	s.evals++
	d := ""
	if len(s.seen) < 400000 {
		d = desc()
		s.seen[hash(d)] = true
		if len(s.samples) < 5 || (s.evals%4999 == 0 && len(s.samples) < 12) {
			s.samples = append(s.samples, d)
		}
	}
	s.cur.Store(desc)
	atomic.StoreInt64(&s.busy, time.Now().UnixNano())
	defer func() {
		atomic.StoreInt64(&s.busy, 0)
		if r := recover(); r != nil {
			if fd, ok := r.(found); ok {
				panic(fd)
			}
			st := string(debug.Stack())
			if k := strings.Index(st, "github.com/aiq/tok"); k >= 0 {
				st = st[k:]
			}
			if len(st) > 600 {
				st = st[:600]
			}
			panic(found{desc() + "\n  panics: " + fmt.Sprint(r) + "\n  at " + st})
		}
	}()
	f()
}

// bad reports that the running case breaks the property.
func (s *S) bad(format string, a ...interface{}) {
	d := s.cur.Load().(func() string)()
	panic(found{d + "\n  " + fmt.Sprintf(format, a...)})
}

func (s *S) over() bool {
	return time.Now().After(s.deadline)
}

var searches = map[string]func(s *S){}

func main() {
	prop := flag.String("p", "", "property")
	secs := flag.Float64("seconds", 20, "")
	seed := flag.Int64("seed", 1, "")
	out := flag.String("out", "", "")
	flag.Parse()
	f := searches[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no search for", *prop)
		os.Exit(3)
	}
	t0 := time.Now()
	s := &S{Rand: rand.New(rand.NewSource(*seed)), prop: *prop, deadline: t0.Add(time.Duration(*secs * float64(time.Second))), seen: map[uint64]bool{}}
	s.cur.Store(func() string { return "?" })
	finish := func(r result) {
		r.Property, r.Evals, r.Distinct, r.Samples, r.Seconds, r.Exhausted = *prop, s.evals, len(s.seen), s.samples, time.Since(t0).Seconds(), s.exhaust
		b, _ := json.MarshalIndent(r, "", " ")
		if *out != "" {
			os.WriteFile(*out, b, 0644)
		} else {
			fmt.Println(string(b))
		}
		if r.Found {
			os.Exit(1)
		}
		os.Exit(0)
	}
	go func() { // a call that does not return
		for {
			time.Sleep(100 * time.Millisecond)
			b := atomic.LoadInt64(&s.busy)
			if b != 0 && time.Since(time.Unix(0, b)) > 5*time.Second {
				d := s.cur.Load().(func() string)()
				finish(result{Found: true, What: d + "\n  does not return within 5 s"})
			}
		}
	}()
	var fd *found
	func() {
		defer func() {
			if r := recover(); r != nil {
				if x, ok := r.(found); ok {
					fd = &x
					return
				}
				panic(r)
			}
		}()
		f(s)
	}()
	if fd != nil {
		finish(result{Found: true, What: fd.what})
	}
	finish(result{})
}
