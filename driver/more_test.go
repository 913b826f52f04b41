package verifdrv

import "testing"

func init() { Shims["more_test"] = func(f func()) { f() } }

func TestC(t *testing.T)   { Tree(t, "TestC", "more_test") }
func TestCC(t *testing.T)  { Tree(t, "TestCC", "more_test") }
func TestAll(t *testing.T) { Tree(t, "TestAll", "more_test") }
func TestB_1(t *testing.T) { Tree(t, "TestB_1", "more_test") }
