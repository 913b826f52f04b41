package verifdrv

import "testing"

func TestVerifRoot(t *testing.T) { Root(t) }

func TestMain(m *testing.M) { Main(m) }
