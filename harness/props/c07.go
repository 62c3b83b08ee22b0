package props

import (
	"context"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/benbjohnson/clock"
	"github.com/bobg/fab"
	"github.com/bobg/fab/sqlite"
	"pgregory.net/rapid"

	"verif/pbt"
)

// C07: the hash database as a set with expiry, against a model.

type c07Handle struct {
	Keep     int64 // nanoseconds; 0 = no Keep option
	NoUpdate bool
	Explicit bool // say UpdateOnAccess(true)
}

type c07Op struct {
	Op  string // add, has, advance, open, close
	H   int
	K   int
	D   int64
	Opt c07Handle
}

type c07Case struct {
	Keys    [][]byte
	Handles []c07Handle
	Start   int64
	Ops     []c07Op
}

var c07Durations = []int64{1, int64(time.Millisecond), int64(time.Second / 2), int64(time.Second), int64(1500 * time.Millisecond), int64(2 * time.Second), int64(10 * time.Second), int64(time.Hour), int64(24 * time.Hour), int64(30 * 24 * time.Hour)}

func c07Gen(t *rapid.T) c07Case {
	c := c07Case{Start: pick(t, "start", 0, int64(1700000000)*1e9, int64(1700000000)*1e9+999999999, int64(8000000000)*1e9, -int64(1e15))}
	key := rapid.OneOf(
		rapid.SliceOfN(rapid.Byte(), 0, 40),
		rapid.SliceOfN(rapid.Byte(), 28, 28),
		rapid.Custom(func(t *rapid.T) []byte {
			return []byte(pick(t, "text", "", "a", "A", "a\x00", "a\x00b", "1", "01", "1.0", " 1", "NULL", "'", "\x00", "é", "e\u0301", "\xff", "%", "a%", "$1"))
		}),
		rapid.Custom(func(t *rapid.T) []byte { return make([]byte, drawInt(t, 0, 300, "zeros")) }),
	)
	for n := drawInt(t, 1, 8, "keys"); n > 0; n-- {
		k := key.Draw(t, "key")
		if len(c.Keys) > 0 && chance(t, 25, "close") {
			// One that differs little from another.
			k = append([]byte(nil), c.Keys[uniform(t, len(c.Keys), "of")]...)
			switch i := drawInt(t, 0, 3, "how"); {
			case i == 0 || len(k) == 0:
				k = append(k, 0)
			case i == 1:
				k = k[:len(k)-1]
			case i == 2:
				k[len(k)-1] ^= 0x20
			default:
				k[0]++
			}
		}
		if k == nil {
			k = []byte{}
		}
		c.Keys = append(c.Keys, k)
	}
	dur := func(label string) int64 {
		d := c07Durations[uniform(t, len(c07Durations), label)]
		return d + pick(t, label+"-off", 0, 0, 0, 1, -1, int64(time.Second), -int64(time.Second))
	}
	handle := func() c07Handle {
		h := c07Handle{NoUpdate: drawBool(t, "noupdate"), Explicit: drawBool(t, "explicit")}
		if drawBool(t, "keeps") {
			h.Keep = dur("keep")
		}
		return h
	}
	for n := drawInt(t, 1, 3, "handles"); n > 0; n-- {
		c.Handles = append(c.Handles, handle())
	}
	keep := c.Handles[0].Keep
	for n := drawInt(t, 2, 40, "ops"); n > 0; n-- {
		op := c07Op{H: uniform(t, len(c.Handles), "h"), K: uniform(t, len(c.Keys), "k")}
		switch x := drawInt(t, 0, 99, "op"); {
		case x < 35:
			op.Op = "add"
		case x < 65:
			op.Op = "has"
		case x < 92:
			op.Op = "advance"
			op.D = dur("advance")
			if keep > 0 && drawBool(t, "edge") {
				op.D = keep/pick(t, "part", int64(1), 2) + pick(t, "off", 0, 1, -1, int64(time.Second), int64(time.Second)-1, int64(time.Second)+1)
			}
			if op.D < 0 {
				op.D = 0
			}
		default:
			op.Op, op.Opt = "reopen", handle()
			if drawBool(t, "sameopts") {
				op.Opt = c.Handles[op.H]
			}
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func c07Run(e *pbt.Env, c c07Case) {
	var (
		ctx  = context.Background()
		file = filepath.Join(e.Dir, "hash.db")
		clk  = clock.NewMock()
	)
	clk.Set(time.Unix(0, c.Start).UTC())
	open := func(h c07Handle) *sqlite.DB {
		opts := []sqlite.Option{sqlite.WithClock(clk)}
		if h.Keep != 0 {
			opts = append(opts, sqlite.Keep(time.Duration(h.Keep)))
		}
		if h.NoUpdate {
			opts = append([]sqlite.Option{sqlite.UpdateOnAccess(false)}, opts...)
		} else if h.Explicit {
			opts = append(opts, sqlite.UpdateOnAccess(true))
		}
		db, err := sqlite.Open(file, opts...)
		if err != nil {
			e.Fatalf("Open: %s", err)
		}
		return db
	}
	var dbs []*sqlite.DB
	handles := append([]c07Handle(nil), c.Handles...)
	for _, h := range handles {
		dbs = append(dbs, open(h))
	}
	e.Cleanup(func() {
		for _, db := range dbs {
			db.Close()
		}
	})
	type entry struct {
		last  time.Time
		maybe bool // it may or may not have been evicted
	}
	model := map[string]entry{}
	evicted, hits := 0, 0
	has := func(what string, db *sqlite.DB, h c07Handle, k []byte) {
		got, err := db.Has(ctx, k)
		if err != nil {
			e.Fatalf("%s: Has(%x): %s", what, k, err)
		}
		en, ok := model[string(k)]
		if !en.maybe && got != ok {
			e.Fatalf("%s: Has(%x) is %v, want %v (at %s, last access %s)", what, k, got, ok, clk.Now(), en.last)
		}
		if !got {
			delete(model, string(k))
			return
		}
		hits++
		if en.maybe = false; !h.NoUpdate {
			en.last = clk.Now()
		}
		model[string(k)] = en
	}
	for i, op := range c.Ops {
		what := fmt.Sprintf("step %d (handle %d: %+v)", i, op.H, handles[op.H])
		k := append([]byte{}, c.Keys[op.K]...)
		db, h := dbs[op.H], handles[op.H]
		switch op.Op {
		case "add":
			if err := db.Add(ctx, k); err != nil {
				e.Fatalf("%s: Add(%x): %s", what, k, err)
			}
			now := clk.Now()
			model[string(k)] = entry{last: now}
			if h.Keep > 0 {
				for x, en := range model {
					switch age := now.Sub(en.last); {
					case age <= time.Duration(h.Keep):
					case age < time.Duration(h.Keep)+time.Second:
						// Times are kept in seconds.
						en.maybe = true
						model[x] = en
					default:
						delete(model, x)
						evicted++
					}
				}
			}
		case "has":
			has(what, db, h, k)
		case "advance":
			clk.Add(time.Duration(op.D))
		case "reopen":
			if err := db.Close(); err != nil {
				e.Fatalf("%s: Close: %s", what, err)
			}
			handles[op.H] = op.Opt
			dbs[op.H] = open(op.Opt)
		}
	}
	final := c07Handle{NoUpdate: true}
	db := open(final)
	defer db.Close()
	for _, k := range c.Keys {
		k := append([]byte{}, k...)
		has("at the end", db, final, k)
		has("at the end, again", db, final, k)
		// One that no Add was given.
		other := append(append([]byte{}, k...), []byte("never added")...)
		has("at the end", db, final, other)
	}
	if hits > 0 && len(c.Ops) > 3 {
		e.NonTrivial()
	}
	e.LabelIf(evicted > 0, "eviction")
	for _, op := range c.Ops {
		e.LabelIf(op.Op == "reopen", "reopen")
	}
	e.LabelIf(len(c.Handles) > 1, "several handles")
}

// The database of the fab command.

type c07FabCase struct {
	Dir   string
	First bool  // it exists already
	Ages  []int // of the entries, in hours
	Look  []bool
	Later int // hours
}

func c07FabGen(t *rapid.T) c07FabCase {
	c := c07FabCase{Dir: pick(t, "dir", "d", "d/", "new/d e", "./x/../d"), First: drawBool(t, "first"), Later: pick(t, "later", 0, 100, 719, 721, 800)}
	for k := drawInt(t, 1, 5, "entries"); k > 0; k-- {
		c.Ages = append(c.Ages, pick(t, "age", 0, 1, 25, 24*7+1, 24*28, 24*29+23, 24*30+1, 24*31, 24*60, 24*400))
		c.Look = append(c.Look, drawBool(t, "look"))
	}
	return c
}

func c07FabRun(e *pbt.Env, c c07FabCase) {
	ctx := context.Background()
	e.Must(os.Chdir(e.Dir))
	open := func() *sqlite.DB {
		db, err := fab.OpenHashDB(c.Dir)
		if err != nil {
			e.Fatalf("OpenHashDB: %s", err)
		}
		return db
	}
	key := func(i int) []byte { return []byte(fmt.Sprintf("entry %d", i)) }
	has := func(db *sqlite.DB, k []byte) bool {
		got, err := db.Has(ctx, k)
		if err != nil {
			e.Fatalf("Has: %s", err)
		}
		return got
	}
	add := func(db *sqlite.DB, k []byte) {
		if err := db.Add(ctx, k); err != nil {
			e.Fatalf("Add: %s", err)
		}
	}
	db := open()
	if c.First {
		add(db, []byte("first"))
	}
	e.Must(db.Close())
	files, err := filepath.Glob(filepath.Join(c.Dir, "*"))
	e.Must(err)
	if len(files) != 1 {
		e.Fatalf("OpenHashDB made %q", files)
	}
	now := time.Now()
	at := func(when time.Time, opts ...sqlite.Option) *sqlite.DB {
		clk := clock.NewMock()
		clk.Set(when)
		db, err := sqlite.Open(files[0], append(opts, sqlite.WithClock(clk))...)
		e.Must(err)
		return db
	}
	for i, a := range c.Ages {
		db := at(now.Add(-time.Duration(a) * time.Hour))
		add(db, key(i))
		e.Must(db.Close())
	}
	db = open()
	for i, l := range c.Look {
		if l && !has(db, key(i)) {
			e.Fatalf("an entry of %d hours is gone before anything was added", c.Ages[i])
		}
	}
	add(db, []byte("new"))
	stays := func(i int) bool { return c.Look[i] || c.Ages[i] < 24*30 }
	for i := range c.Ages {
		if got := has(db, key(i)); got != stays(i) {
			e.Fatalf("an entry last accessed %d hours ago (looked up again since: %v): Has is %v", c.Ages[i], c.Look[i], got)
		}
		e.LabelIf(!stays(i), "evicted")
	}
	if !has(db, []byte("new")) || c.First && !has(db, []byte("first")) {
		e.Fatalf("a new entry is not there")
	}
	e.Must(db.Close())
	// All the others have been accessed now.
	db = at(now.Add(time.Duration(c.Later)*time.Hour), sqlite.Keep(30*24*time.Hour), sqlite.UpdateOnAccess(false))
	defer db.Close()
	add(db, []byte("later"))
	for i := range c.Ages {
		if got := has(db, key(i)); got != (stays(i) && c.Later < 24*30) {
			e.Fatalf("an entry looked up %d hours ago: Has is %v", c.Later, got)
		}
	}
	e.NonTrivial()
}

var _ = strings.TrimSpace

func init() {
	pbt.Register(&pbt.Prop{
		ID: "C07",
		Subs: []*pbt.Sub{
			pbt.NewSub("model", "sequences of Add, Has, clock advances and reopenings of one to three handles with any options, over keys that resemble each other; non-trivial: more than three operations, and something was found", 4000, 200000, c07Gen, c07Run),
			pbt.NewSub("fab", "the database that OpenHashDB opens, with entries of ages up to 400 days, lookups and additions; every case is non-trivial", 300, 10000, c07FabGen, c07FabRun),
		},
		Assumptions: []string{"keys are not nil", "the clock does not go back", "between an age of d and d plus one second either answer is accepted, because times are kept in seconds"},
	})
}
