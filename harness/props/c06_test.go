package props

import (
	"fmt"
	"os"
	"path/filepath"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// C06: killing the process at any instant never leads to index reuse.

// A key is created and used by other processes, which are killed as they enter
// some system call, or at some moment.
func TestC06_Killed(t *testing.T) {
	strace := haveStrace()
	if !strace {
		label("no strace: only kills at random moments")
	}
	check(t, 960, 6000, func(t *rapid.T) {
		p := genLife(t, 2, 1, 4, 3, 9)
		k := genKey(t, p)
		ops := genOps(t, p, 7)
		first := append([]cmdT{deriveCmd("", k)}, ops...)
		// what becomes of it afterwards
		type future struct {
			at    uint32 // where the process is killed
			timed bool
			after []cmdT // further processes, also killed
			at2   uint32
		}
		var futures []future
		nf := 10
		if thorough {
			nf = 40
		}
		for i, n := 0, 1+int(spread(t, "kills"))%nf; i < n; i++ {
			f := future{at: spread(t, "at"), timed: !strace || rapid.IntRange(0, 4).Draw(t, "timed") == 0}
			if rapid.Bool().Draw(t, "again") {
				f.after = genOps(t, p, 4)
				f.at2 = spread(t, "at2")
			}
			futures = append(futures, f)
		}
		root := tmpDir()
		defer rmDir(root)
		// run runs commands to their end, to see how long it takes
		n := 0
		fresh := func() (dir, path string) {
			n++
			dir = filepath.Join(root, fmt.Sprintf("r%d", n))
			os.MkdirAll(filepath.Join(dir, "k"), 0700)
			return dir, filepath.Join(dir, "k", "key")
		}
		dir, path := fresh()
		step("C06 %v %s", p, opNames(first))
		l0 := newCrashLife(t, p, k)
		l0.log("%s", opNames(first))
		var calls []tracedCall
		t0 := time.Now()
		var args []string
		if strace {
			args = []string{"-y", "-e", "trace=" + alterCalls}
		}
		full := runScript(dir, withPath(first, path), args, 0)
		took := time.Since(t0)
		if full.Exit != 0 || full.Killed || len(full.Replies) != len(first) {
			l0.fatalf("the process did not end as it should: exit %d, %d of %d replies: %s", full.Exit, len(full.Replies), len(first), firstLines(full.Stderr, 20))
		}
		if strace {
			calls = tracedCalls(full.Trace)
		}
		l1 := l0.fork()
		l1.absorb(withPath(first, path), full.Replies, "without a kill")
		// its process has ended, perhaps without closing the key
		if sk := l1.restart(path, true, "the process ended"); sk != nil {
			l1.signSome(sk, 2, "after the process ended")
			sk.Close()
		}
		for _, f := range futures {
			l := l0.fork()
			dir, path := fresh()
			kill := func(cmds []cmdT, at uint32) scriptRun {
				if f.timed || len(calls) == 0 {
					return runScript(dir, cmds, nil, 1+time.Duration(float64(took)*float64(at)/(1<<32)))
				}
				return runScript(dir, cmds, killAt(choose(calls, at)), 0)
			}
			cmds := withPath(first, path)
			r := kill(cmds, f.at)
			where := "at a random moment"
			if !f.timed {
				where = "entering " + lastCall(r.Trace)
			}
			if !r.Killed {
				where = "(not killed)"
				if r.Exit != 0 {
					l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 20))
				}
			}
			what := fmt.Sprintf("killed %s after %d commands", where, len(r.Replies))
			l.log("%s", what)
			created := l.absorb(cmds, r.Replies, what)
			sk := l.restart(path, created, what)
			eval()
			if sk == nil {
				continue
			}
			if r.Killed {
				label("killed %s", where)
				nontrivial(fmt.Sprintf("C06 %v %s: %s", p, opNames(first), what))
			}
			how := rapid.IntRange(0, 2).Draw(t, "then")
			if how > 0 {
				l.signSome(sk, how, what)
			}
			if err := sk.Close(); err != nil {
				l.fatalf("Close: %v", err)
			}
			if f.after == nil {
				continue
			}
			cmds = withPath(append([]cmdT{{Op: "load"}}, f.after...), path)
			r = kill(cmds, f.at2)
			what = fmt.Sprintf("then %s killed=%v after %d commands", opNames(cmds), r.Killed, len(r.Replies))
			l.log("%s", what)
			if !r.Killed && r.Exit != 0 {
				l.fatalf("the process ended with status %d: %s", r.Exit, firstLines(r.Stderr, 20))
			}
			l.absorb(cmds, r.Replies, what)
			if sk := l.restart(path, true, what); sk != nil {
				l.signSome(sk, 1, what)
				sk.Close()
				if r.Killed {
					label("killed a second time")
				}
			}
		}
	})
}

// A running process is stopped now and then, and what it would leave behind if
// it were killed now is opened.
func TestC06_Snapshots(t *testing.T) {
	check(t, 320, 2400, func(t *rapid.T) {
		p := genLife(t, 4, 1, 4, 3, 9)
		k := genKey(t, p)
		root := tmpDir()
		defer rmDir(root)
		os.Mkdir(filepath.Join(root, "k"), 0700)
		path := filepath.Join(root, "k", "key")
		var ops []cmdT
		for i := 0; i < rapid.IntRange(1, 5).Draw(t, "parts"); i++ {
			ops = append(ops, genOps(t, p, 12)...)
			if len(ops) > 0 && ops[len(ops)-1].Op == "close" {
				ops = append(ops, cmdT{Op: "load"})
			}
		}
		cmds := withPath(append([]cmdT{deriveCmd("", k)}, ops...), path)
		var delays []time.Duration
		for i := 0; i < 25; i++ {
			delays = append(delays, time.Duration(rapid.IntRange(0, 1200).Draw(t, "delay"))*time.Microsecond)
		}
		type state struct {
			s    snapshot
			path string
		}
		var states []state
		step("C06 snapshots %v", p)
		replies, bad := takeSnapshots(root, cmds, delays, func(i int, s snapshot) {
			d := filepath.Join(root, fmt.Sprintf("s%d", i))
			os.Mkdir(d, 0700)
			copyKey(path, filepath.Join(d, "key"))
			states = append(states, state{s, filepath.Join(d, "key")})
		})
		l0 := newCrashLife(t, p, k)
		l0.log("%s", opNames(cmds))
		if bad != "" {
			l0.fatalf("the process did not end as it should: %s", bad)
		}
		l0.fork().absorb(cmds, replies, "the whole run")
		for _, st := range states {
			l := l0.fork()
			what := fmt.Sprintf("stopped after %v, %d commands", st.s.at, len(st.s.replies))
			l.log("%s", what)
			created := l.absorb(cmds, st.s.replies, what)
			if sk := l.restart(st.path, created, what); sk != nil {
				l.signSome(sk, 2, what)
				sk.Close()
			}
			eval()
			nontrivial(fmt.Sprintf("C06 snapshot %v %s: %s", p, opNames(cmds), what))
			label("snapshots")
		}
	})
}
