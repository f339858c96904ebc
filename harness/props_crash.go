package main

import (
	"fmt"
	"os"
	"path/filepath"
	"time"
)

func init() {
	register(&Property{
		ID: "C09", Level: "fault_enumeration", Quick: 420 * time.Second, Thorough: 12 * minute,
		Rule: "every history of one, two or three operations, every point between two file-system calls of it, every prefix of the unsynced directory changes and every loss or tearing of unsynced data; each resulting image is opened by the real code and compared with the states before and after the interrupted operation. Distinct: images",
		Run: func(c *Ctx) {
			un := &Universe{Pairs: pairsOf("alice", "bob", "carol", "dave"), Logins: []string{"alice", "bob@example.com", "carol"}, Pws: []string{pwA, pwB, pwC, "changed-password"}, Keys: []string{"u2fA"}}
			ops := append(changes(), opSave, Op{K: "copy", Path: "copy.json"})
			for i, op := range ops {
				c.Crashes(CrashCase{Name: fmt.Sprintf("one/%d", i), Prelude: populated(), History: []Op{op}, Un: un})
			}
			small := []Op{uCarol, on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"}), on("alice", Op{K: "addapi", Usage: "api", Comment: "n"}), on("alice", Op{K: "delapi", Ref: 0}), opSave, {K: "copy", Path: "copy.json"}, opReopen}
			for i, a := range small {
				for j, b := range small {
					c.Crashes(CrashCase{Name: fmt.Sprintf("two/%d.%d", i, j), Prelude: populated(), History: []Op{a, b}, Un: un})
					if c.Thorough {
						for k, d := range small {
							c.Crashes(CrashCase{Name: fmt.Sprintf("three/%d.%d.%d", i, j, k), Prelude: populated(), History: []Op{a, b, d}, Un: un})
						}
					}
				}
			}
			// Creation, also in new directories, and completion of the policy.
			c.Crashes(CrashCase{Name: "create", History: []Op{uAlice}, Un: un, Create: true})
			c.Crashes(CrashCase{Name: "create-nested", Path: "a/b/users.json", History: []Op{uAlice}, Un: un, Create: true})
			c.Crashes(CrashCase{Name: "defaults", File: `{"version":"1.0.0","revision":3,"users":[]}`, History: []Op{uAlice}, Un: un, Create: true})
			// Copies onto an older copy, and through a link.
			c.Crashes(CrashCase{Name: "copy-over", Prelude: append([]Op{uCarol, {K: "copy", Path: "copy.json"}}, populated()...), History: []Op{{K: "copy", Path: "copy.json"}, uDave(), {K: "copy", Path: "copy.json"}}, Un: un})
			c.Crashes(CrashCase{Name: "link", Un: un, History: []Op{uCarol, on("carol", Op{K: "changepw", Old: pwC, Pw: "changed-password"})}, Prelude: []Op{uAlice}, Path: "link.json", Setup: func(w *World) {
				os.Mkdir(filepath.Join(w.root, "real"), 0700)
				writePolicyFile(filepath.Join(w.root, "real", "users.json"), mPolicy{3, 50, 8, 128, 10})
				os.Symlink("real/users.json", filepath.Join(w.root, "link.json"))
			}})
			// A big database: several writes, if the code splits them.
			var big []Op
			for i := 0; i < 40; i++ {
				big = append(big, addUser(fmt.Sprintf("user%d", i), fmt.Sprintf("user%d@example.com", i), fmt.Sprintf("password-%d", i)))
			}
			for _, cr := range c.crowdList() {
				for i, op := range append(small, crowdOps(cr)...) {
					if cr.name == "users140" || cr.name == "keys140" || cr.name == "texts70" || i < 2 {
						c.Crashes(CrashCase{Name: fmt.Sprintf("crowd-%s/%d", cr.name, i), From: cr, History: []Op{op}, Un: un})
					}
				}
			}
			c.Crashes(CrashCase{Name: "big", Prelude: append(big, uAlice), History: []Op{uBob, on("alice", Op{K: "changepw", Old: pwA, Pw: "changed-password"})}, Un: un})
		},
		Assumptions: []string{"unsynced directory changes reach the disk in order; unsynced file data may be lost or torn at the start, the middle or the end of each write, or replaced by zeros"},
	})
}

func uDave() Op { return addUser("dave", "dave@example.com", pwC) }
