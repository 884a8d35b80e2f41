module verifharness

go 1.23
