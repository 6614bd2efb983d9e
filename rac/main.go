// Command rac runs the contracts of a property against the compiled library on generated inputs.
// It looks for a concrete failing input; it never decides that a property holds.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sync"
	"time"
)

// Failure is a concrete input on which a contract does not hold.
type Failure struct {
	Key    string
	What   string
	Replay interface{}
}

// Run is the context of one worker.
type Run struct {
	*rand.Rand
	prop     string
	dir      string // scratch directory of the worker
	deadline time.Time
	cases    int
	kinds    map[string]int
	fail     *Failure
}

func (r *Run) over() bool { return r.fail != nil || time.Now().After(r.deadline) }

func (r *Run) count(kind string) { r.cases++; r.kinds[kind]++ }

// check records a failure of a contract.
func (r *Run) check(ok bool, key string, replay interface{}, f string, a ...interface{}) bool {
	if !ok && r.fail == nil {
		r.fail = &Failure{key, fmt.Sprintf(f, a...), replay}
	}
	return ok
}

var drivers = map[string]func(*Run){}

func main() {
	prop := flag.String("prop", "", "property")
	seed := flag.Int64("seed", 1, "seed")
	secs := flag.Int("seconds", 6, "time")
	scratch := flag.String("scratch", "", "scratch directory")
	workers := flag.Int("workers", 8, "workers")
	flag.Parse()
	type out struct {
		Cases  int
		Kinds  map[string]int
		Failed bool
		Key    string
		What   string
		Replay interface{}
	}
	o := out{Kinds: map[string]int{}}
	emit := func() {
		b, err := json.Marshal(o)
		if err != nil {
			o.Replay = fmt.Sprint(o.Replay)
			b, _ = json.Marshal(o)
		}
		fmt.Println(string(b))
	}
	d := drivers[*prop]
	if d == nil {
		emit()
		return
	}
	dir, err := os.MkdirTemp(*scratch, "rac")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(dir)
	deadline := time.Now().Add(time.Duration(*secs) * time.Second)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			wd := filepath.Join(dir, fmt.Sprint(w))
			os.MkdirAll(wd, 0755)
			r := &Run{Rand: rand.New(rand.NewSource(*seed*1000 + int64(w))), prop: *prop, dir: wd, deadline: deadline, kinds: map[string]int{}}
			func() {
				defer func() {
					if e := recover(); e != nil && r.fail == nil {
						if *prop == "C16" || isContractPanic(e) {
							r.fail = &Failure{"panic", fmt.Sprintf("panic: %v", e), string(debug.Stack())}
						} else {
							r.fail = &Failure{"panic", fmt.Sprintf("panic: %v", e), string(debug.Stack())}
						}
					}
				}()
				d(r)
			}()
			mu.Lock()
			defer mu.Unlock()
			o.Cases += r.cases
			for k, n := range r.kinds {
				o.Kinds[k] += n
			}
			if r.fail != nil && !o.Failed {
				o.Failed, o.Key, o.What, o.Replay = true, r.fail.Key, r.fail.What, r.fail.Replay
			}
		}(w)
	}
	wg.Wait()
	emit()
}

func isContractPanic(e interface{}) bool { return false }

// ---- generators ----

func (r *Run) pick(xs ...string) string { return xs[r.Intn(len(xs))] }

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"

func (r *Run) word(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = letters[r.Intn(len(letters))]
	}
	return string(b)
}

// text is a short string with awkward characters.
func (r *Run) text() string {
	pieces := []string{"", " ", "a", "b", "B", "/", ",", "@", ".", "\t", "\n", "é", "İ", "ſ", "日本", "admin", "Org", "user", "x", "0", "-", "_", "+", "%", "&", "?", "=", "\"", "\\", "<", "\u2028", "'"}
	n := r.Intn(6)
	s := ""
	for i := 0; i < n; i++ {
		s += pieces[r.Intn(len(pieces))]
	}
	return s
}
