package verifdrv

// Through is a helper frame that lives in a non-test source file.
func Through(f func()) {
	func() {
		defer func() {}()
		f()
	}()
}
