package verifdrv

import "testing"

func init() { Shims["tree_test"] = func(f func()) { f() } }

func TestA(t *testing.T)   { Tree(t, "TestA", "tree_test") }
func TestAB(t *testing.T)  { Tree(t, "TestAB", "tree_test") }
func TestA_b(t *testing.T) { Tree(t, "TestA_b", "tree_test") }
func TestB(t *testing.T)   { Tree(t, "TestB", "tree_test") }

func FuzzA(f *testing.F) {
	f.Add(1)
	f.Fuzz(func(t *testing.T, n int) { Tree(t, "FuzzA", "tree_test") })
}
