package verifdrv

// closures and generic helpers in a test file, called through a helper that lives in a non-test file
func init() { Shims["nest_test"] = func(f func()) { func() { Through(wrap(f)) }() } }

func wrap[F func()](f F) func() { return func() { Through(func() { f() }) } }
