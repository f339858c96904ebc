package main

import (
	"fmt"
	"strings"
	"time"
)

// concurrentAlphabet are the operations that run against each other.
func concurrentAlphabet() []Op {
	return []Op{
		uCarol,
		addUser("CAROL", "carol2@"+dom, pwB),
		addUser("carla", "Carol@"+dom, pwB),
		on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}),
		on("alice", Op{K: "changepw", Old: pwA, Pw: "another-password"}),
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh", Comment: "one"}),
		on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:pem", Comment: "two"}),
		on("alice", Op{K: "addpk", Usage: "gpg", Payload: "pgpB"}),
		on("alice", Op{K: "delpk", Ref: 0}),
		on("alice", Op{K: "addapi", Usage: "api", Comment: "new"}),
		on("bob", Op{K: "addapi", Usage: "api", Comment: "new"}),
		on("alice", Op{K: "delapi", Ref: 0}),
		on("alice", Op{K: "addmfa", Payload: "totpC", Comment: "new"}),
		on("alice", Op{K: "addmfa", Payload: "u2fB", Comment: "new"}),
		on("alice", Op{K: "delmfa", Ref: 0}),
		on("alice", Op{K: "deluser"}),
		opSave,
		{K: "copy", Path: "copy.json"},
		{K: "copy", Path: "other.json"},
		faulty(uCarol, "enospc"),
		faulty(on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}), "enospc"),
		faulty(on("alice", Op{K: "addpk", Usage: "ssh", Payload: "rsaC:ssh", Comment: "one"}), "enospc"),
		faulty(on("alice", Op{K: "addapi", Usage: "api", Comment: "new"}), "enospc"),
		faulty(on("alice", Op{K: "delapi", Ref: 0}), "enospc"),
		faulty(on("alice", Op{K: "delmfa", Ref: 0}), "enospc"),
		faulty(opSave, "enospc"),
		faulty(Op{K: "copy", Path: "copy.json"}, "enospc"),
	}
}

func concurrentReaders() []Op {
	return []Op{
		on("alice", Op{K: "getusers"}),
		on("alice", Op{K: "getuser"}),
		on("carol", Op{K: "getuser"}),
		{K: "auth", Name: "alice", Pw: pwA},
		{K: "auth", Name: "alice@" + dom, Pw: "changed-password"},
		{K: "auth", Name: "carol", Pw: pwC},
		{K: "authkey", Name: "alice", Payload: "u2fA"},
		{K: "lookup", Ref: 0},
		on("alice", Op{K: "getpk", Usage: "ssh"}),
		on("alice", Op{K: "getapi", Usage: "api"}),
		on("alice", Op{K: "getmfa"}),
		{K: "identify", Name: "alice"},
		{K: "identify", Name: "carol@" + dom},
		{K: "count"},
		{K: "getpath"},
	}
}

func concurrentUniverse() *Universe {
	return &Universe{
		Pairs:  pairsOf("alice", "carol"),
		Logins: []string{"alice", "carol", "carla", "carol@" + dom, "carol2@" + dom}, Pws: []string{pwA, pwB, pwC, "changed-password", "another-password"}, Keys: []string{"u2fA", "u2fB"},
	}
}

// sparse is a prelude whose users own nothing, or one thing of each kind: any
// addition or removal changes what is required of them.
func sparse() []Op {
	dora := addUser("dora", "dora@"+dom, pwA)
	dora.Full, dora.Roles = "Smith, Dora", []string{"admin", "org/staff"}
	eve := addUser("eve", "eve@"+dom, pwB)
	eve.Full, eve.Roles = "Jones, Eve", []string{"viewer"}
	fred := addUser("fred", "fred@"+dom, pwC)
	return []Op{
		dora, eve, fred,
		on("eve", Op{K: "addpk", Usage: "ssh", Payload: "rsaA:ssh", Comment: "key"}),
		on("eve", Op{K: "addapi", Usage: "api", Comment: "api"}),
		on("eve", Op{K: "addmfa", Payload: "totpA", Comment: "app"}),
		on("fred", Op{K: "addmfa", Payload: "u2fA", Comment: "key"}),
	}
}

func sparseChanges() []Op {
	return []Op{
		on("dora", Op{K: "addmfa", Payload: "totpB", Comment: "app"}),
		on("dora", Op{K: "addmfa", Payload: "u2fB", Comment: "key"}),
		on("dora", Op{K: "addpk", Usage: "ssh", Payload: "rsaB:ssh", Comment: "key"}),
		on("dora", Op{K: "addapi", Usage: "api", Comment: "api"}),
		on("dora", Op{K: "changepw", Old: pwA, Pw: "changed-password"}),
		on("eve", Op{K: "addmfa", Payload: "u2fB", Comment: "key"}),
		on("eve", Op{K: "delmfa", Ref: 0}),
		on("eve", Op{K: "delpk", Ref: 0}),
		on("eve", Op{K: "delapi", Ref: 0}),
		on("fred", Op{K: "delmfa", Ref: 1}),
		on("fred", Op{K: "addmfa", Payload: "totpC", Comment: "app"}),
		faulty(on("dora", Op{K: "addmfa", Payload: "totpB", Comment: "app"}), "enospc"),
		faulty(on("eve", Op{K: "delmfa", Ref: 0}), "enospc"),
	}
}

func sparseReaders() []Op {
	var l []Op
	for _, n := range []string{"dora", "eve", "fred"} {
		l = append(l, Op{K: "identify", Name: n}, on(n, Op{K: "getuser"}), on(n, Op{K: "getmfa"}))
	}
	return append(l, Op{K: "identify", Name: "dora@" + dom}, on("dora", Op{K: "getusers"}), on("dora", Op{K: "getpk", Usage: "ssh"}), on("dora", Op{K: "getapi", Usage: "api"}),
		on("eve", Op{K: "getpk", Usage: "ssh"}), on("eve", Op{K: "getapi", Usage: "api"}), Op{K: "lookup", Ref: 0},
		Op{K: "auth", Name: "dora", Pw: pwA}, Op{K: "auth", Name: "dora", Pw: "changed-password"}, Op{K: "authkey", Name: "fred", Payload: "u2fA"})
}

func sparseUniverse() *Universe {
	return &Universe{
		Pairs: pairsOf("dora", "eve", "fred"), Logins: []string{"dora", "eve", "fred", "dora@" + dom},
		Pws: []string{pwA, pwB, pwC, "changed-password"}, Keys: []string{"u2fA", "u2fB"},
	}
}

func init() {
	register(&Property{
		ID: "C10", Level: "model_checking", Quick: 420 * time.Second, Thorough: 13 * minute,
		Rule: "every program of the family, under every schedule with at most the given number of preemptions; scheduling points at every lock operation, system call, hash computation and operation boundary (and, in the fine programs, every clock and random read). Every outcome (all results, memory, files, and both reopened) must be that of a sequential execution in an order consistent with real time",
		Run:  runC10,
	})
}

func runC10(c *Ctx) {
	un := concurrentUniverse()
	pre := populated()
	muts, reads := concurrentAlphabet(), concurrentReaders()
	run := func(name string, bound int, fine bool, threads ...[]Op) {
		p := &Program{Name: name, Prelude: pre, Threads: threads, Bound: bound, Un: un, Fine: fine}
		c.Case(name, func(v *V) { c.Linearizable(v, p) })
	}
	bound := 2
	if c.Thorough {
		bound = 3
	}
	// All pairs with at least one change.
	for i, a := range muts {
		for j := i; j < len(muts); j++ {
			run(fmt.Sprintf("mm/%d.%d", i, j), bound, false, []Op{a}, []Op{muts[j]})
		}
		for j, b := range reads {
			run(fmt.Sprintf("mr/%d.%d", i, j), bound, false, []Op{a}, []Op{b})
		}
	}
	for i, a := range reads {
		for j := i; j < len(reads); j++ {
			run(fmt.Sprintf("rr/%d.%d", i, j), bound, false, []Op{a}, []Op{reads[j]})
		}
	}
	// Clock and random reads as scheduling points.
	for i, a := range muts[:15] {
		for j := i; j < 15; j++ {
			run(fmt.Sprintf("fine/%d.%d", i, j), bound-1, true, []Op{a}, []Op{muts[j]})
		}
	}
	// A change against two reads in a row: reads must not go back in time.
	chosen := []int{0, 3, 5, 9, 11, 13, 14, 17, 19, 20, 23}
	related := map[int][][2]int{
		0: {{2, 5}, {5, 2}, {13, 0}, {12, 13}, {0, 5}}, 3: {{3, 4}, {4, 3}, {3, 1}, {4, 11}}, 5: {{8, 1}, {1, 8}}, 9: {{9, 7}, {1, 9}}, 11: {{7, 9}, {9, 7}, {7, 7}},
		13: {{10, 11}, {11, 10}, {6, 10}}, 14: {{10, 11}, {11, 10}}, 17: {{14, 14}, {14, 13}}, 19: {{2, 5}, {5, 2}, {13, 13}, {12, 0}}, 20: {{3, 4}, {4, 3}}, 23: {{7, 9}, {7, 7}},
	}
	for _, i := range chosen {
		for k, rr := range related[i] {
			run(fmt.Sprintf("mrr/%d.%d", i, k), bound, false, []Op{muts[i]}, []Op{reads[rr[0]], reads[rr[1]]})
			run(fmt.Sprintf("mr,r/%d.%d", i, k), bound, false, []Op{muts[i]}, []Op{reads[rr[0]]}, []Op{reads[rr[1]]})
		}
	}
	// Two changes in a row against another change or a read.
	two := [][2]int{{0, 9}, {3, 4}, {5, 8}, {11, 9}, {12, 14}, {17, 0}, {19, 0}, {20, 3}}
	for i, ab := range two {
		for _, j := range []int{0, 1, 3, 6, 10, 11, 14, 16, 17} {
			run(fmt.Sprintf("mm,m/%d.%d", i, j), bound-1, false, []Op{muts[ab[0]], muts[ab[1]]}, []Op{muts[j]})
		}
		for j := range reads {
			run(fmt.Sprintf("mm,r/%d.%d", i, j), bound-1, false, []Op{muts[ab[0]], muts[ab[1]]}, []Op{reads[j]})
		}
	}
	// Users who own nothing, or one thing of each kind.
	sun, spre, smuts, sreads := sparseUniverse(), sparse(), sparseChanges(), sparseReaders()
	spare := func(name string, bound int, threads ...[]Op) {
		p := &Program{Name: name, Prelude: spre, Threads: threads, Bound: bound, Un: sun}
		c.Case(name, func(v *V) { c.Linearizable(v, p) })
	}
	for i, a := range smuts {
		for j := i; j < len(smuts); j++ {
			if smuts[j].Name == a.Name {
				spare(fmt.Sprintf("sparse/mm/%d.%d", i, j), bound-1, []Op{a}, []Op{smuts[j]})
			}
		}
		var own []Op
		for j, b := range sreads {
			if strings.HasPrefix(b.Name, a.Name) || b.K == "lookup" || b.K == "getusers" {
				spare(fmt.Sprintf("sparse/mr/%d.%d", i, j), bound, []Op{a}, []Op{b})
				own = append(own, b)
			}
		}
		for j, b := range own {
			spare(fmt.Sprintf("sparse/mrr/%d.%d", i, j), bound-1, []Op{a}, []Op{b, own[0]})
		}
	}
	// Three threads.
	three, third := []int{0, 1, 3, 11, 17, 19}, []int{1, 2, 4, 5, 7, 13, 14}
	if c.Thorough {
		three, third = []int{0, 1, 3, 6, 9, 11, 14, 17, 19, 20}, nil
		for j := range reads {
			third = append(third, j)
		}
	}
	for x := 0; x < len(three); x++ {
		for y := x; y < len(three); y++ {
			for z := y; z < len(three); z++ {
				a, b, d := three[x], three[y], three[z]
				run(fmt.Sprintf("mmm/%d.%d.%d", a, b, d), bound-1, false, []Op{muts[a]}, []Op{muts[b]}, []Op{muts[d]})
			}
			for _, j := range third {
				a, b := three[x], three[y]
				run(fmt.Sprintf("mmr/%d.%d.%d", a, b, j), bound-1, false, []Op{muts[a]}, []Op{muts[b]}, []Op{reads[j]})
			}
		}
	}
	if c.Thorough {
		for x := range muts[:18] {
			for y := x; y < 18; y++ {
				for z := range reads {
					run(fmt.Sprintf("mm,rr/%d.%d.%d", x, y, z), 1, false, []Op{muts[x], muts[y]}, []Op{reads[z], reads[(z+1)%len(reads)]})
				}
			}
		}
	}
}
