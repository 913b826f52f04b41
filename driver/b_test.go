package verifdrv

func init() { Shims["b_test"] = func(f func()) { f() } }
