package verifdrv

func init() { Shims["a_test"] = func(f func()) { f() } }
